// Minimal stand-in for DARMA/magistrate ("checkpoint"), which is not in the
// sandbox.  It implements just the interface vt uses, so that vt's sources can
// be compiled (natively and to LLVM IR).  See DESIGN.md, "mini-magistrate".
#ifndef VERIF_MINI_MAGISTRATE_H
#define VERIF_MINI_MAGISTRATE_H
#include "checkpoint/detector.h"
#include <array>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <chrono>

namespace checkpoint {

struct SERIALIZE_CONSTRUCT_TAG {};
using SerialByteType = char;

enum class eSerializationMode { None, Sizing, Packing, Unpacking, Footprinting };

struct Serializer {
  explicit Serializer(eSerializationMode m) : mode_(m) {}
  bool isSizing() const { return mode_ == eSerializationMode::Sizing; }
  bool isPacking() const { return mode_ == eSerializationMode::Packing; }
  bool isUnpacking() const { return mode_ == eSerializationMode::Unpacking; }
  bool isFootprinting() const { return mode_ == eSerializationMode::Footprinting; }
  void addBytes(std::size_t) {}
  template <typename T> void countBytes(T const&) {}
  template <typename T> void skip(T const&) {}
  bool isVirtualDisabled() const { return true; }
protected:
  eSerializationMode mode_;
};

struct Sizer : Serializer {
  Sizer() : Serializer(eSerializationMode::Sizing) {}
  void contiguousBytes(void*, std::size_t sz, std::size_t n) { size_ += sz * n; }
  std::size_t getSize() const { return size_; }
  void addBytes(std::size_t n) { size_ += n; }
private:
  std::size_t size_ = 0;
};
struct Footprinter : Serializer {
  Footprinter() : Serializer(eSerializationMode::Footprinting) {}
  void contiguousBytes(void*, std::size_t sz, std::size_t n) { size_ += sz * n; }
  void addBytes(std::size_t n) { size_ += n; }
  template <typename T> void countBytes(T const& t) { size_ += sizeof(t); }
  std::size_t getMemoryFootprint() const { return size_; }
private:
  std::size_t size_ = 0;
};
struct Packer : Serializer {
  Packer(char* b, std::size_t n) : Serializer(eSerializationMode::Packing), cur_(b), start_(b), size_(n) {}
  void contiguousBytes(void* p, std::size_t sz, std::size_t n) {
    assert(static_cast<std::size_t>(cur_ - start_) + sz * n <= size_);
    if (sz * n) std::memcpy(cur_, p, sz * n);
    cur_ += sz * n;
  }
  std::size_t usedBufferSize() const { return cur_ - start_; }
private:
  char* cur_; char* start_; std::size_t size_;
};
struct Unpacker : Serializer {
  explicit Unpacker(char* b) : Serializer(eSerializationMode::Unpacking), cur_(b), start_(b) {}
  void contiguousBytes(void* p, std::size_t sz, std::size_t n) {
    if (sz * n) std::memcpy(p, cur_, sz * n);
    cur_ += sz * n;
  }
  std::size_t usedBufferSize() const { return cur_ - start_; }
private:
  char* cur_; char* start_;
};

template <typename T> struct is_footprinter : std::is_same<std::remove_reference_t<T>, Footprinter> {};
template <typename T> static constexpr bool is_footprinter_v = is_footprinter<T>::value;

namespace traits_detail {
template <typename T> using mem_serialize_t = decltype(std::declval<T&>().template serialize<Sizer>(std::declval<Sizer&>()));
template <typename T> using mem_serialize2_t = decltype(std::declval<T&>().serialize(std::declval<Sizer&>()));
template <typename T> using mem_serializefp_t = decltype(std::declval<T&>().template serialize<Footprinter>(std::declval<Footprinter&>()));
template <typename T> using nonintr_t = decltype(serialize(std::declval<Sizer&>(), std::declval<T&>()));
template <typename T> using bytecopy_t = typename T::isByteCopyable;
template <typename T> struct is_std : std::false_type {};
}

template <typename T, typename = void> struct SerializableTraits {
  using U = std::remove_cv_t<T>;
  static constexpr bool has_serialize_instrusive =
    detection::is_detected<traits_detail::mem_serialize_t, U>::value or
    detection::is_detected<traits_detail::mem_serialize2_t, U>::value;
  static constexpr bool has_serialize_noninstrusive = detection::is_detected<traits_detail::nonintr_t, U>::value;
  static constexpr bool has_serialize_function = has_serialize_instrusive or has_serialize_noninstrusive;
  static constexpr bool has_bytecopy =
    std::is_same<detection::detected_or_t<std::false_type, traits_detail::bytecopy_t, U>, std::true_type>::value;
  static constexpr bool is_arith = std::is_arithmetic<U>::value or std::is_enum<U>::value;
  static constexpr bool is_bytecopyable = is_arith or has_bytecopy;
  static constexpr bool is_std = traits_detail::is_std<U>::value;
  static constexpr bool is_serializable = is_bytecopyable or has_serialize_function or is_std;
};

template <typename S, typename T> void dispatch(S& s, T& t);

template <typename SerializerT, typename T>
std::enable_if_t<std::is_base_of<Serializer, std::decay_t<SerializerT>>::value, SerializerT&>
operator|(SerializerT& s, T& t) { dispatch(s, const_cast<std::remove_const_t<T>&>(t)); return s; }
template <typename SerializerT, typename T>
std::enable_if_t<std::is_base_of<Serializer, std::decay_t<SerializerT>>::value, SerializerT&>
operator|(SerializerT& s, T&& t) { auto&& x = t; dispatch(s, const_cast<std::remove_const_t<std::remove_reference_t<T>>&>(x)); return s; }
template <typename SerializerT, typename T>
std::enable_if_t<std::is_base_of<Serializer, std::decay_t<SerializerT>>::value, SerializerT&>
operator&(SerializerT& s, T& t) { return s | t; }

template <typename S> void dispatchArr(S&, char*, std::size_t) = delete;
template <typename S, typename T> void dispatchArray(S& s, T* t, std::size_t n) {
  if constexpr (SerializableTraits<T>::is_bytecopyable and not SerializableTraits<T>::has_serialize_function) {
    s.contiguousBytes(t, sizeof(T), n);
  } else {
    for (std::size_t i = 0; i < n; i++) s | t[i];
  }
}

template <typename T, typename = void> struct Reconstructor {
  template <typename U> using has_def = decltype(U());
  template <typename U> using has_tag = decltype(U(SERIALIZE_CONSTRUCT_TAG{}));
  template <typename U> using has_rec = decltype(U::reconstruct(std::declval<void*>()));
  static T* make(void* buf) {
    if constexpr (detection::is_detected<has_tag, T>::value) return new (buf) T(SERIALIZE_CONSTRUCT_TAG{});
    else if constexpr (std::is_default_constructible<T>::value) return new (buf) T{};
    else if constexpr (detection::is_detected<has_rec, T>::value) return &T::reconstruct(buf);
    else { assert(false && "not reconstructible"); std::abort(); return nullptr; }
  }
};
template <typename T> struct AllocT {
  AllocT() { p = Reconstructor<T>::make(buf); }
  ~AllocT() { p->~T(); }
  alignas(T) char buf[sizeof(T)];
  T* p = nullptr;
};

// ---- standard containers
#define MM_STD(...) namespace traits_detail { template <__VA_ARGS__> struct is_std
MM_STD(typename T, typename A)<std::vector<T, A>> : std::true_type {}; }
MM_STD(typename T, typename A)<std::deque<T, A>> : std::true_type {}; }
MM_STD(typename T, typename A)<std::list<T, A>> : std::true_type {}; }
MM_STD(typename T, std::size_t N)<std::array<T, N>> : std::true_type {}; }
MM_STD(typename... T)<std::tuple<T...>> : std::true_type {}; }
MM_STD(typename A, typename B)<std::pair<A, B>> : std::true_type {}; }
MM_STD(typename C, typename T, typename A)<std::basic_string<C, T, A>> : std::true_type {}; }
MM_STD(typename K, typename V, typename C, typename A)<std::map<K, V, C, A>> : std::true_type {}; }
MM_STD(typename K, typename V, typename C, typename A)<std::multimap<K, V, C, A>> : std::true_type {}; }
MM_STD(typename K, typename H, typename E, typename V, typename A)<std::unordered_map<K, V, H, E, A>> : std::true_type {}; }
MM_STD(typename K, typename C, typename A)<std::set<K, C, A>> : std::true_type {}; }
MM_STD(typename K, typename H, typename E, typename A)<std::unordered_set<K, H, E, A>> : std::true_type {}; }
MM_STD(typename T, typename D)<std::unique_ptr<T, D>> : std::true_type {}; }
MM_STD(typename T)<std::shared_ptr<T>> : std::true_type {}; }
MM_STD(typename T)<std::optional<T>> : std::true_type {}; }
MM_STD(typename T)<std::atomic<T>> : std::true_type {}; }
MM_STD(typename... T)<std::variant<T...>> : std::true_type {}; }
MM_STD(typename T)<std::function<T>> : std::true_type {}; }
MM_STD(typename T, typename C)<std::queue<T, C>> : std::true_type {}; }
MM_STD(typename T, typename C)<std::stack<T, C>> : std::true_type {}; }
MM_STD(typename T, typename C, typename L)<std::priority_queue<T, C, L>> : std::true_type {}; }
#undef MM_STD

template <typename S> std::size_t serSize(S& s, std::size_t n) { s.contiguousBytes(&n, sizeof n, 1); return n; }

template <typename S, typename T, typename A> void serStd(S& s, std::vector<T, A>& v) {
  auto n = serSize(s, v.size());
  if constexpr (std::is_same<T, bool>::value) {
    if (s.isUnpacking()) v.resize(n);
    for (std::size_t i = 0; i < n; i++) { bool b = v[i]; s | b; v[i] = b; }
  } else {
    if (s.isUnpacking()) {
      if constexpr (std::is_default_constructible<T>::value) v.resize(n);
      else { v.clear(); for (std::size_t i = 0; i < n; i++) { AllocT<T> a; v.emplace_back(std::move(*a.p)); } }
    }
    dispatchArray(s, v.data(), n);
  }
}
template <typename S, typename C> void serSeq(S& s, C& v) {
  auto n = serSize(s, v.size());
  if (s.isUnpacking()) { v.clear(); for (std::size_t i = 0; i < n; i++) { AllocT<typename C::value_type> a; s | *a.p; v.emplace_back(std::move(*a.p)); } }
  else for (auto& e : v) s | e;
}
template <typename S, typename T, typename A> void serStd(S& s, std::deque<T, A>& v) { serSeq(s, v); }
template <typename S, typename T, typename A> void serStd(S& s, std::list<T, A>& v) { serSeq(s, v); }
template <typename S, typename T, std::size_t N> void serStd(S& s, std::array<T, N>& v) { dispatchArray(s, v.data(), N); }
template <typename S, typename... T> void serStd(S& s, std::tuple<T...>& t) { std::apply([&](auto&... x) { (void)std::initializer_list<int>{((s | x), 0)...}; }, t); }
template <typename S, typename A, typename B> void serStd(S& s, std::pair<A, B>& p) { s | const_cast<std::remove_const_t<A>&>(p.first); s | const_cast<std::remove_const_t<B>&>(p.second); }
template <typename S, typename C, typename T, typename A> void serStd(S& s, std::basic_string<C, T, A>& v) {
  auto n = serSize(s, v.size());
  if (s.isUnpacking()) v.resize(n);
  s.contiguousBytes(const_cast<C*>(v.data()), sizeof(C), n);
}
template <typename S, typename M> void serMap(S& s, M& m) {
  using K = typename M::key_type; using V = typename M::mapped_type;
  auto n = serSize(s, m.size());
  if (s.isUnpacking()) { m.clear(); for (std::size_t i = 0; i < n; i++) { AllocT<K> k; AllocT<V> v; s | *k.p; s | *v.p; m.emplace(std::move(*k.p), std::move(*v.p)); } }
  else for (auto& e : m) { s | const_cast<K&>(e.first); s | e.second; }
}
template <typename S, typename K, typename V, typename C, typename A> void serStd(S& s, std::map<K, V, C, A>& m) { serMap(s, m); }
template <typename S, typename K, typename V, typename C, typename A> void serStd(S& s, std::multimap<K, V, C, A>& m) { serMap(s, m); }
template <typename S, typename K, typename V, typename H, typename E, typename A> void serStd(S& s, std::unordered_map<K, V, H, E, A>& m) { serMap(s, m); }
template <typename S, typename M> void serSet(S& s, M& m) {
  using K = typename M::key_type;
  auto n = serSize(s, m.size());
  if (s.isUnpacking()) { m.clear(); for (std::size_t i = 0; i < n; i++) { AllocT<K> k; s | *k.p; m.emplace(std::move(*k.p)); } }
  else for (auto& e : m) s | const_cast<K&>(e);
}
template <typename S, typename K, typename C, typename A> void serStd(S& s, std::set<K, C, A>& m) { serSet(s, m); }
template <typename S, typename K, typename H, typename E, typename A> void serStd(S& s, std::unordered_set<K, H, E, A>& m) { serSet(s, m); }
template <typename S, typename T> void serStd(S& s, std::atomic<T>& a) { T t = a.load(); s | t; if (s.isUnpacking()) a.store(t); }
template <typename S, typename T> void serStd(S& s, std::optional<T>& o) {
  bool h = o.has_value(); s | h;
  if (h) { if (s.isUnpacking()) { AllocT<T> a; s | *a.p; o = std::move(*a.p); } else s | *o; }
}
template <typename S, typename T, typename = void> struct can_vser : std::false_type {};
template <typename S, typename T, typename D> void serStd(S& s, std::unique_ptr<T, D>& p) {
  bool h = p != nullptr; s | h;
  if constexpr (not std::is_abstract<T>::value) {
    if (h) {
      if (s.isUnpacking()) { p = std::unique_ptr<T, D>(Reconstructor<T>::make(::operator new(sizeof(T)))); }
      s | *p;
    }
  }
}
template <typename S, typename T> void serStd(S& s, std::shared_ptr<T>& p) {
  bool h = p != nullptr; s | h;
  if constexpr (not std::is_abstract<T>::value) {
    if (h) { if (s.isUnpacking()) p = std::shared_ptr<T>(Reconstructor<T>::make(::operator new(sizeof(T)))); s | *p; }
  }
}
template <std::size_t I, typename S, typename V> void serVar(S& s, V& v, std::size_t idx) {
  if constexpr (I < std::variant_size<V>::value) {
    if (idx == I) {
      using T = std::variant_alternative_t<I, V>;
      if (s.isUnpacking()) { AllocT<T> a; s | *a.p; v.template emplace<I>(std::move(*a.p)); } else s | std::get<I>(v);
    } else serVar<I + 1>(s, v, idx);
  }
}
template <typename S, typename... T> void serStd(S& s, std::variant<T...>& v) { std::size_t i = v.index(); s | i; serVar<0>(s, v, i); }
template <typename S, typename T> void serStd(S& s, std::function<T>& f) { s.countBytes(f); }
template <typename S, typename T, typename C> void serStd(S& s, std::queue<T, C>& q) {
  auto n = serSize(s, q.size());
  if (s.isUnpacking()) { for (std::size_t i = 0; i < n; i++) { AllocT<T> a; s | *a.p; q.push(std::move(*a.p)); } }
  else { auto c = q; while (not c.empty()) { s | c.front(); c.pop(); } }
}
template <typename S, typename T, typename C> void serStd(S& s, std::stack<T, C>& q) { serSize(s, q.size()); }
template <typename S, typename T, typename C, typename L> void serStd(S& s, std::priority_queue<T, C, L>& q) { serSize(s, q.size()); }

namespace adl_detail {
template <typename S, typename T> using nonintr = decltype(serialize(std::declval<S&>(), std::declval<T&>()));
template <typename S, typename T> void callNonIntr(S& s, T& t) { serialize(s, t); }
template <typename S, typename T> using intr = decltype(std::declval<T&>().serialize(std::declval<S&>()));
}

template <typename S, typename T> void dispatch(S& s, T& t) {
  using U = std::remove_cv_t<T>;
  if constexpr (std::is_array<U>::value) {
    dispatchArray(s, &t[0], std::extent<U>::value);
  } else if constexpr (detection::is_detected<adl_detail::intr, S, U>::value) {
    t.serialize(s);
  } else if constexpr (detection::is_detected<adl_detail::nonintr, S, U>::value) {
    adl_detail::callNonIntr(s, t);
  } else if constexpr (SerializableTraits<U>::is_bytecopyable) {
    s.contiguousBytes(&t, sizeof(U), 1);
  } else if constexpr (traits_detail::is_std<U>::value) {
    serStd(s, t);
  } else if constexpr (is_footprinter_v<S>) {
    s.countBytes(t);
  } else if constexpr (std::is_pointer<U>::value) {
    s.contiguousBytes(&t, sizeof(U), 1);
  } else {
    static_assert(std::is_void<U>::value, "mini-magistrate: type is not serializable");
  }
}

struct SerializedInfo {
  SerializedInfo(std::unique_ptr<char[]> b, std::size_t n) : buf_(std::move(b)), size_(n) {}
  char* getBuffer() const { return buf_.get(); }
  std::size_t getSize() const { return size_; }
private:
  std::unique_ptr<char[]> buf_; std::size_t size_ = 0;
};
using SerializedReturnType = std::unique_ptr<SerializedInfo>;
using BufferCallbackType = std::function<SerialByteType*(std::size_t)>;

template <typename T> std::size_t getSize(T& t) { Sizer s; s | t; return s.getSize(); }
template <typename T> std::size_t getMemoryFootprint(T const& t, std::size_t = 0) { Footprinter s; s | const_cast<T&>(t); return s.getMemoryFootprint(); }
template <typename T> SerializedReturnType serialize(T& t, BufferCallbackType fn = nullptr) {
  auto n = getSize(t);
  std::unique_ptr<char[]> own; char* buf;
  if (fn) buf = fn(n); else { own = std::make_unique<char[]>(n); buf = own.get(); }
  Packer p(buf, n); p | t;
  return std::make_unique<SerializedInfo>(std::move(own), n);
}
template <typename T> void deserializeInPlace(char* buf, T* t) { Unpacker u(buf); u | *t; }
template <typename T> std::unique_ptr<T> deserialize(char* buf) {
  auto t = std::unique_ptr<T>(Reconstructor<T>::make(::operator new(sizeof(T))));
  Unpacker u(buf); u | *t; return t;
}
template <typename T> void serializeToFile(T& t, std::string const& name) {
  auto r = serialize(t); FILE* f = std::fopen(name.c_str(), "wb"); assert(f);
  if (std::fwrite(r->getBuffer(), 1, r->getSize(), f) != r->getSize()) std::abort();
  std::fclose(f);
}
inline std::vector<char> mmReadFile(std::string const& name) {
  FILE* f = std::fopen(name.c_str(), "rb"); assert(f);
  std::vector<char> v; char b[4096]; std::size_t n;
  while ((n = std::fread(b, 1, sizeof b, f)) > 0) v.insert(v.end(), b, b + n);
  std::fclose(f); return v;
}
template <typename T> std::unique_ptr<T> deserializeFromFile(std::string const& name) { auto v = mmReadFile(name); return deserialize<T>(v.data()); }
template <typename T> void deserializeInPlaceFromFile(std::string const& name, T* t) { auto v = mmReadFile(name); deserializeInPlace<T>(v.data(), t); }
template <typename S, typename T> void reconstructPointedToObjectIfNeeded(S& s, T*& t) {
  if (s.isUnpacking()) t = Reconstructor<T>::make(::operator new(sizeof(T)));
}

} // namespace checkpoint

namespace magistrate = checkpoint;

#define magistrate_virtual_serialize_root() \
  virtual void mm_vroot_() {}
#define magistrate_virtual_serialize_derived_from(B) \
  void mm_vroot_() override {}
#define magistrate_intrusive_virtual_serialize_root() magistrate_virtual_serialize_root()
#define checkpoint_virtual_serialize_root() magistrate_virtual_serialize_root()
#define checkpoint_virtual_serialize_derived_from(B) magistrate_virtual_serialize_derived_from(B)

using checkpoint::operator|;
#endif
