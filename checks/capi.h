// A DBM whose every method goes through the C interface, directly or through its asynchronous part.
#pragma once
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include "tkrzw_dbm.h"
#include "tkrzw_langc.h"

class CDbm : public tkrzw::DBM {
 public:
  typedef tkrzw::Status Status;
  using DBM::Process;
  using DBM::ProcessMulti;
  using DBM::ProcessFirst;
  using DBM::ProcessEach;
  using DBM::GetMulti;
  using DBM::SetMulti;
  using DBM::RemoveMulti;
  using DBM::AppendMulti;
  explicit CDbm(const std::string& params, bool async = false) : params_(params), async_(async) {}
  ~CDbm() { if (d_) Close(); }
  static Status Last() {
    TkrzwStatus s = tkrzw_get_last_status();
    if (s.code != tkrzw_get_last_status_code()) return Status(Status::APPLICATION_ERROR, "the status codes differ");
    return Status((Status::Code)s.code, s.message);
  }
  static Status St(bool ok) {
    Status s = Last();
    if (ok != (s == Status::SUCCESS)) return Status(Status::APPLICATION_ERROR, "the return value " + std::to_string(ok) + " with " + tkrzw::ToString(s));
    return s;
  }
  static std::string Take(char* p, int32_t n) {
    std::string s(p, n);
    if (p[n] != 0) s += "(no terminator)";
    free(p);
    return s;
  }
  static Status Fut(TkrzwFuture* f) { tkrzw_future_get(f); tkrzw_future_free(f); return Last(); }
  // Empty strings may have any address; a missing string has none.
  static const char* P(std::string_view v) { return v.data() ? v.data() : ""; }

  struct Proc { RecordProcessor* p; bool first = true; };
  static const char* Ret(std::string_view rv, int32_t* size) {
    if (rv.data() == RecordProcessor::NOOP.data()) return TKRZW_REC_PROC_NOOP;
    if (rv.data() == RecordProcessor::REMOVE.data()) return TKRZW_REC_PROC_REMOVE;
    *size = rv.size();
    return P(rv);
  }
  static const char* Call(void* a, const char* kp, int32_t ks, const char* vp, int32_t vs, int32_t* out) {
    Proc* p = (Proc*)a;
    if (kp == nullptr) return Ret(p->p->ProcessEmpty(RecordProcessor::NOOP), out);
    if (vp == nullptr) return Ret(p->p->ProcessEmpty(std::string_view(kp, ks)), out);
    return Ret(p->p->ProcessFull(std::string_view(kp, ks), std::string_view(vp, vs)), out);
  }

  Status Open(const std::string& path, bool writable, int32_t options) override {
    if (d_) return Status(Status::PRECONDITION_ERROR, "opened");
    std::string p = params_;
    if (options & tkrzw::File::OPEN_TRUNCATE) p += ",truncate=true";
    if (options & tkrzw::File::OPEN_NO_CREATE) p += ",no_create=1";
    d_ = tkrzw_dbm_open(path.c_str(), writable, p.c_str());
    Status s = St(d_ != nullptr);
    if (d_ && async_) a_ = tkrzw_async_dbm_new(d_, 1);
    return s;
  }
  Status Close() override {
    if (!d_) return Status(Status::PRECONDITION_ERROR, "not opened");
    if (a_) tkrzw_async_dbm_free(a_);
    a_ = nullptr;
    TkrzwDBM* d = d_;
    d_ = nullptr;
    return St(tkrzw_dbm_close(d));
  }
  Status Process(std::string_view key, RecordProcessor* proc, bool writable) override {
    Proc p{proc};
    return St(tkrzw_dbm_process(d_, P(key), key.size(), Call, &p, writable));
  }
  Status Get(std::string_view key, std::string* value = nullptr) override {
    int32_t n = -7;
    char* p;
    Status s;
    if (a_) {
      TkrzwFuture* f = tkrzw_async_dbm_get(a_, P(key), key.size());
      if (!tkrzw_future_wait(f, -1)) return Status(Status::APPLICATION_ERROR, "tkrzw_future_wait");
      p = tkrzw_future_get_str(f, &n);
      tkrzw_future_free(f);
      s = Last();
      if (s != Status::SUCCESS) { free(p); return s; }
    } else {
      p = tkrzw_dbm_get(d_, P(key), key.size(), &n);
      s = St(p != nullptr);
    }
    const bool there = tkrzw_dbm_check(d_, P(key), key.size());
    if (there != (p != nullptr) || St(there).GetCode() != s.GetCode()) return Status(Status::APPLICATION_ERROR, "tkrzw_dbm_check");
    if (p) { std::string v = Take(p, n); if (value) *value = v; }
    return s;
  }
  Status GetMulti(const std::vector<std::string_view>& keys, std::map<std::string, std::string>* records) override {
    std::vector<TkrzwStr> k;
    for (auto& x : keys) k.push_back({P(x), (int32_t)x.size()});
    int32_t n = -7;
    TkrzwKeyValuePair* r;
    if (a_) {
      TkrzwFuture* f = tkrzw_async_dbm_get_multi(a_, k.data(), k.size());
      r = tkrzw_future_get_str_map(f, &n);
      tkrzw_future_free(f);
    } else {
      r = tkrzw_dbm_get_multi(d_, k.data(), k.size(), &n);
    }
    Status s = Last();
    for (int i = 0; i < n; i++) (*records)[std::string(r[i].key_ptr, r[i].key_size)] = std::string(r[i].value_ptr, r[i].value_size);
    for (auto& x : keys) {
      TkrzwKeyValuePair* e = tkrzw_search_str_map(r, n, P(x), x.size());
      if ((e != nullptr) != (records->count(std::string(x)) != 0)) s = Status(Status::APPLICATION_ERROR, "tkrzw_search_str_map");
    }
    tkrzw_free_str_map(r, n);
    return s;
  }
  Status GetMulti(const std::vector<std::string>& keys, std::map<std::string, std::string>* records) override { return GetMulti(std::vector<std::string_view>(keys.begin(), keys.end()), records); }
  Status Set(std::string_view key, std::string_view value, bool overwrite = true, std::string* old_value = nullptr) override {
    if (a_) {
      std::string old;
      const bool has = Get(key, &old) == Status::SUCCESS;
      Status s = Fut(tkrzw_async_dbm_set(a_, P(key), key.size(), P(value), value.size(), overwrite));
      if (old_value && has) *old_value = old;
      return s;
    }
    if (!old_value) return St(tkrzw_dbm_set(d_, P(key), key.size(), P(value), value.size(), overwrite));
    int32_t n = -7;
    char* p = tkrzw_dbm_set_and_get(d_, P(key), key.size(), P(value), value.size(), overwrite, &n);
    Status s = Last();
    if (p) *old_value = Take(p, n);
    return s;
  }
  Status SetMulti(const std::map<std::string_view, std::string_view>& records, bool overwrite = true) override {
    std::vector<TkrzwKeyValuePair> r;
    for (auto& x : records) r.push_back({P(x.first), (int32_t)x.first.size(), P(x.second), (int32_t)x.second.size()});
    if (a_) return Fut(tkrzw_async_dbm_set_multi(a_, r.data(), r.size(), overwrite));
    return St(tkrzw_dbm_set_multi(d_, r.data(), r.size(), overwrite));
  }
  Status Remove(std::string_view key, std::string* old_value = nullptr) override {
    if (a_) {
      std::string old;
      Get(key, &old);
      Status s = Fut(tkrzw_async_dbm_remove(a_, P(key), key.size()));
      if (s == Status::SUCCESS && old_value) *old_value = old;
      return s;
    }
    if (!old_value) return St(tkrzw_dbm_remove(d_, P(key), key.size()));
    int32_t n = -7;
    char* p = tkrzw_dbm_remove_and_get(d_, P(key), key.size(), &n);
    Status s = St(p != nullptr);
    if (p) *old_value = Take(p, n);
    return s;
  }
  Status RemoveMulti(const std::vector<std::string_view>& keys) override {
    std::vector<TkrzwStr> k;
    for (auto& x : keys) k.push_back({P(x), (int32_t)x.size()});
    if (a_) return Fut(tkrzw_async_dbm_remove_multi(a_, k.data(), k.size()));
    return St(tkrzw_dbm_remove_multi(d_, k.data(), k.size()));
  }
  Status Append(std::string_view key, std::string_view value, std::string_view delim = "") override {
    if (multi_append_) return AppendMulti(std::map<std::string_view, std::string_view>{{key, value}}, delim);
    if (a_) return Fut(tkrzw_async_dbm_append(a_, P(key), key.size(), P(value), value.size(), P(delim), delim.size()));
    return St(tkrzw_dbm_append(d_, P(key), key.size(), P(value), value.size(), P(delim), delim.size()));
  }
  Status AppendMulti(const std::map<std::string_view, std::string_view>& records, std::string_view delim = "") override {
    std::vector<TkrzwKeyValuePair> r;
    for (auto& x : records) r.push_back({P(x.first), (int32_t)x.first.size(), P(x.second), (int32_t)x.second.size()});
    if (a_) return Fut(tkrzw_async_dbm_append_multi(a_, r.data(), r.size(), P(delim), delim.size()));
    return St(tkrzw_dbm_append_multi(d_, r.data(), r.size(), P(delim), delim.size()));
  }
  static const char* Any(std::string_view v) { return v.data() == ANY_DATA.data() ? TKRZW_ANY_DATA : v.data(); }
  Status CompareExchange(std::string_view key, std::string_view expected, std::string_view desired, std::string* actual = nullptr, bool* found = nullptr) override {
    if (a_) {
      std::string old;
      const bool has = Get(key, &old) == Status::SUCCESS;
      if (found) *found = has;
      if (has && actual) *actual = old;
      return Fut(tkrzw_async_dbm_compare_exchange(a_, P(key), key.size(), Any(expected), expected.size(), Any(desired), desired.size()));
    }
    if (!actual) return St(tkrzw_dbm_compare_exchange(d_, P(key), key.size(), Any(expected), expected.size(), Any(desired), desired.size()));
    int32_t n = -7;
    char* p = tkrzw_dbm_compare_exchange_and_get(d_, P(key), key.size(), Any(expected), expected.size(), Any(desired), desired.size(), &n);
    Status s = Last();
    if (found) *found = p != nullptr;
    if (p) *actual = Take(p, n);
    return s;
  }
  Status Increment(std::string_view key, int64_t increment = 1, int64_t* current = nullptr, int64_t initial = 0) override {
    int64_t c;
    if (a_) {
      TkrzwFuture* f = tkrzw_async_dbm_increment(a_, P(key), key.size(), increment, initial);
      c = tkrzw_future_get_int(f);
      tkrzw_future_free(f);
    } else {
      c = tkrzw_dbm_increment(d_, P(key), key.size(), increment, initial);
    }
    Status s = Last();
    if (s == Status::SUCCESS && current) *current = c;
    return s;
  }
  Status ProcessMulti(const std::vector<std::pair<std::string_view, RecordProcessor*>>& pairs, bool writable) override {
    std::vector<Proc> ps(pairs.size());
    std::vector<TkrzwKeyProcPair> c;
    for (size_t i = 0; i < pairs.size(); i++) { ps[i].p = pairs[i].second; c.push_back({P(pairs[i].first), (int32_t)pairs[i].first.size(), Call, &ps[i]}); }
    return St(tkrzw_dbm_process_multi(d_, c.data(), c.size(), writable));
  }
  Status CompareExchangeMulti(const std::vector<std::pair<std::string_view, std::string_view>>& expected, const std::vector<std::pair<std::string_view, std::string_view>>& desired) override {
    std::vector<TkrzwKeyValuePair> e, d;
    for (auto& x : expected) e.push_back({P(x.first), (int32_t)x.first.size(), Any(x.second), (int32_t)x.second.size()});
    for (auto& x : desired) d.push_back({P(x.first), (int32_t)x.first.size(), Any(x.second), (int32_t)x.second.size()});
    if (a_) return Fut(tkrzw_async_dbm_compare_exchange_multi(a_, e.data(), e.size(), d.data(), d.size()));
    return St(tkrzw_dbm_compare_exchange_multi(d_, e.data(), e.size(), d.data(), d.size()));
  }
  Status Rekey(std::string_view old_key, std::string_view new_key, bool overwrite = true, bool copying = false, std::string* value = nullptr) override {
    if (value) Get(old_key, value);
    if (a_) return Fut(tkrzw_async_dbm_rekey(a_, P(old_key), old_key.size(), P(new_key), new_key.size(), overwrite, copying));
    return St(tkrzw_dbm_rekey(d_, P(old_key), old_key.size(), P(new_key), new_key.size(), overwrite, copying));
  }
  Status ProcessFirst(RecordProcessor* proc, bool writable) override {
    Proc p{proc};
    return St(tkrzw_dbm_process_first(d_, Call, &p, writable));
  }
  Status PopFirst(std::string* key = nullptr, std::string* value = nullptr) override {
    if (a_) {
      TkrzwFuture* f = tkrzw_async_dbm_pop_first(a_);
      TkrzwKeyValuePair* r = tkrzw_future_get_str_pair(f);
      tkrzw_future_free(f);
      Status s = Last();
      if (s == Status::SUCCESS) { if (key) key->assign(r->key_ptr, r->key_size); if (value) value->assign(r->value_ptr, r->value_size); }
      free(r);
      return s;
    }
    char *kp = nullptr, *vp = nullptr;
    int32_t kn = -7, vn = -7;
    Status s = St(tkrzw_dbm_pop_first(d_, key ? &kp : nullptr, &kn, value ? &vp : nullptr, &vn));
    if (kp) *key = Take(kp, kn);
    if (vp) *value = Take(vp, vn);
    return s;
  }
  Status PushLast(std::string_view value, double wtime = -1, std::string* key = nullptr) override {
    std::map<std::string, std::string> a, b;
    auto dump = [&](std::map<std::string, std::string>* m) {
      struct R : RecordProcessor { std::map<std::string, std::string>* m; std::string_view ProcessFull(std::string_view k, std::string_view v) override { m->emplace(k, v); return NOOP; } } r;
      r.m = m;
      ProcessEach(&r, false);
    };
    if (key) dump(&a);
    Status s = a_ ? Fut(tkrzw_async_dbm_push_last(a_, P(value), value.size(), wtime)) : St(tkrzw_dbm_push_last(d_, P(value), value.size(), wtime));
    if (key) { dump(&b); for (auto& e : b) if (!a.count(e.first)) *key = e.first; }
    return s;
  }
  Status ProcessEach(RecordProcessor* proc, bool writable) override {
    Proc p{proc};
    return St(tkrzw_dbm_process_each(d_, Call, &p, writable));
  }
  Status Count(int64_t* count) override { *count = tkrzw_dbm_count(d_); return St(*count >= 0); }
  Status GetFileSize(int64_t* size) override { *size = tkrzw_dbm_get_file_size(d_); return St(*size >= 0); }
  Status GetFilePath(std::string* path) override { char* p = tkrzw_dbm_get_file_path(d_); Status s = St(p != nullptr); if (p) { *path = p; free(p); } return s; }
  Status GetTimestamp(double* t) override { *t = tkrzw_dbm_get_timestamp(d_); return Last(); }
  Status Clear() override { return a_ ? Fut(tkrzw_async_dbm_clear(a_)) : St(tkrzw_dbm_clear(d_)); }
  Status Rebuild() override { return RebuildWith(""); }
  Status RebuildWith(const std::string& params) { return a_ ? Fut(tkrzw_async_dbm_rebuild(a_, params.c_str())) : St(tkrzw_dbm_rebuild(d_, params.c_str())); }
  Status ShouldBeRebuilt(bool* tobe) override { *tobe = tkrzw_dbm_should_be_rebuilt(d_); return Last(); }
  Status Synchronize(bool hard, FileProcessor* proc = nullptr) override { return SynchronizeWith(hard, proc, ""); }
  Status SynchronizeWith(bool hard, FileProcessor* proc, const std::string& params) {
    if (a_ && !proc) return Fut(tkrzw_async_dbm_synchronize(a_, hard, params.c_str()));
    auto fn = [](void* arg, const char* path) { if (arg) ((FileProcessor*)arg)->Process(path); };
    return St(tkrzw_dbm_synchronize(d_, hard, proc ? (tkrzw_file_processor)fn : nullptr, proc, params.c_str()));
  }
  Status CopyFileData(const std::string& dest, bool hard = false) override {
    return a_ ? Fut(tkrzw_async_dbm_copy_file_data(a_, dest.c_str(), hard)) : St(tkrzw_dbm_copy_file_data(d_, dest.c_str(), hard));
  }
  std::vector<std::pair<std::string, std::string>> Inspect() override {
    int32_t n = -7;
    TkrzwKeyValuePair* r = tkrzw_dbm_inspect(d_, &n);
    std::vector<std::pair<std::string, std::string>> v;
    for (int i = 0; i < n; i++) v.emplace_back(std::string(r[i].key_ptr, r[i].key_size), std::string(r[i].value_ptr, r[i].value_size));
    tkrzw_free_str_map(r, n);
    return v;
  }
  bool IsOpen() const override { return d_ != nullptr; }
  bool IsWritable() const override { return tkrzw_dbm_is_writable(d_); }
  bool IsHealthy() const override { return tkrzw_dbm_is_healthy(d_); }
  bool IsOrdered() const override { return tkrzw_dbm_is_ordered(d_); }
  Status Search(const std::string& mode, const std::string& pattern, std::vector<std::string>* out, int32_t cap) {
    int32_t n = -7;
    TkrzwStr* r;
    if (a_) {
      TkrzwFuture* f = tkrzw_async_dbm_search(a_, mode.c_str(), pattern.data(), pattern.size(), cap);
      r = tkrzw_future_get_str_array(f, &n);
      tkrzw_future_free(f);
    } else {
      r = tkrzw_dbm_search(d_, mode.c_str(), pattern.data(), pattern.size(), cap, &n);
    }
    Status s = Last();
    out->clear();
    if (!r) return s;
    for (int i = 0; i < n; i++) out->emplace_back(r[i].ptr, r[i].size);
    tkrzw_free_str_array(r, n);
    return s;
  }

  class Iter : public Iterator {
   public:
    using Iterator::Process;
    explicit Iter(TkrzwDBMIter* i) : i_(i) {}
    ~Iter() { tkrzw_dbm_iter_free(i_); }
    Status First() override { return St(tkrzw_dbm_iter_first(i_)); }
    Status Last() override { return St(tkrzw_dbm_iter_last(i_)); }
    Status Jump(std::string_view key) override { return St(tkrzw_dbm_iter_jump(i_, P(key), key.size())); }
    Status JumpLower(std::string_view key, bool inc = false) override { return St(tkrzw_dbm_iter_jump_lower(i_, P(key), key.size(), inc)); }
    Status JumpUpper(std::string_view key, bool inc = false) override { return St(tkrzw_dbm_iter_jump_upper(i_, P(key), key.size(), inc)); }
    Status Next() override { return St(tkrzw_dbm_iter_next(i_)); }
    Status Previous() override { return St(tkrzw_dbm_iter_previous(i_)); }
    Status Process(RecordProcessor* proc, bool writable) override { Proc p{proc}; return St(tkrzw_dbm_iter_process(i_, Call, &p, writable)); }
    Status Out(bool ok, char* kp, int32_t kn, char* vp, int32_t vn, std::string* key, std::string* value) {
      Status s = St(ok);
      if (kp) { std::string x = Take(kp, kn); if (key) *key = x; }
      if (vp) { std::string x = Take(vp, vn); if (value) *value = x; }
      return s;
    }
    Status Get(std::string* key = nullptr, std::string* value = nullptr) override {
      char *kp = nullptr, *vp = nullptr;
      int32_t kn = -7, vn = -7;
      const bool ok = tkrzw_dbm_iter_get(i_, key ? &kp : nullptr, &kn, value ? &vp : nullptr, &vn);
      Status s = Out(ok, kp, kn, vp, vn, key, value);
      int32_t n = -7;
      char* p = tkrzw_dbm_iter_get_key(i_, &n);
      if (St(p != nullptr).GetCode() != s.GetCode()) s = Status(Status::APPLICATION_ERROR, "tkrzw_dbm_iter_get_key");
      if (p) { const std::string k = Take(p, n); if (key && k != *key) s = Status(Status::APPLICATION_ERROR, "tkrzw_dbm_iter_get_key"); }
      p = tkrzw_dbm_iter_get_value(i_, &n);
      if (St(p != nullptr).GetCode() != s.GetCode()) s = Status(Status::APPLICATION_ERROR, "tkrzw_dbm_iter_get_value");
      if (p) { const std::string v = Take(p, n); if (value && v != *value) s = Status(Status::APPLICATION_ERROR, "tkrzw_dbm_iter_get_value"); }
      return s;
    }
    // The C functions that change a record do not tell what it was.
    Status Set(std::string_view value, std::string* ok = nullptr, std::string* ov = nullptr) override {
      std::string k, v;
      Get(&k, &v);
      Status s = St(tkrzw_dbm_iter_set(i_, P(value), value.size()));
      if (s == Status::SUCCESS) { if (ok) *ok = k; if (ov) *ov = v; }
      return s;
    }
    Status Remove(std::string* ok = nullptr, std::string* ov = nullptr) override {
      std::string k, v;
      Get(&k, &v);
      Status s = St(tkrzw_dbm_iter_remove(i_));
      if (s == Status::SUCCESS) { if (ok) *ok = k; if (ov) *ov = v; }
      return s;
    }
    Status Step(std::string* key = nullptr, std::string* value = nullptr) override {
      char *kp = nullptr, *vp = nullptr;
      int32_t kn = -7, vn = -7;
      const bool ok = tkrzw_dbm_iter_step(i_, key ? &kp : nullptr, &kn, value ? &vp : nullptr, &vn);
      return Out(ok, kp, kn, vp, vn, key, value);
    }
   private:
    TkrzwDBMIter* i_;
  };
  std::unique_ptr<Iterator> MakeIterator() override { return std::make_unique<Iter>(tkrzw_dbm_make_iterator(d_)); }
  std::unique_ptr<DBM> MakeDBM() const override { return std::make_unique<CDbm>(params_, async_); }
  UpdateLogger* GetUpdateLogger() const override { return nullptr; }
  void SetUpdateLogger(UpdateLogger*) override {}
  TkrzwDBM* handle() { return d_; }
  bool multi_append_ = false;

 private:
  std::string params_;
  bool async_;
  TkrzwDBM* d_ = nullptr;
  TkrzwAsyncDBM* a_ = nullptr;
};
