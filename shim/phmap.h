// Stand-in for the parallel-hashmap library (absent offline): hash maps and sets with their mathematical meaning, a finite function
// or set. Trusted: that the library has this meaning for keys whose hash respects equality (C02, C26 prove that for fiction's keys).
//
// A container can also stand for an arbitrary one (fv_arbitrary(id)), which makes proofs about single operations proofs about all
// histories: membership and value of every key that has not been written since are uninterpreted functions of (id, key). Iterating
// over such a container enumerates its keys in an arbitrary order: the key at a position and the position of a key are uninterpreted
// functions, inverse to each other, of the container's version. Elements reached by iteration must not be written through.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <type_traits>
#include <utility>

extern "C"
{
uint64_t __fv_uf4(const char*, uint64_t, uint64_t, uint64_t, uint64_t);
void     fv_not_enumerable();
void     __fv_assume(bool);
}

namespace phmap
{
// encodings of keys as words, and arbitrary values; contracts specialise these for their key and value types
template <class K, class = void>
struct fv_key
{};
template <class K>
struct fv_key<K, std::enable_if_t<std::is_integral_v<K> || std::is_enum_v<K>>>
{
    static uint64_t word(const K& k, int i) { return i == 0 ? static_cast<uint64_t>(k) : 0; }
    static K        make(uint64_t w, uint64_t, uint64_t) { return static_cast<K>(w); }
};
template <class K>
struct fv_key<K, std::void_t<decltype(std::declval<K>().x), decltype(std::declval<K>().y), decltype(std::declval<K>().z)>>
{
    static uint64_t word(const K& k, int i) { return i == 0 ? static_cast<uint64_t>(k.x) : i == 1 ? static_cast<uint64_t>(k.y) : static_cast<uint64_t>(k.z) | (k.is_dead() ? 1ull << 40 : 0); }
    static K        make(uint64_t a, uint64_t b, uint64_t c)
    {
        return K{static_cast<decltype(K{}.x)>(a), static_cast<decltype(K{}.y)>(b), static_cast<decltype(K{}.z)>(c)};
    }
};
template <class A, class B>
    requires requires(const A& a, const B& b) { fv_key<A>::word(a, 0), fv_key<B>::word(b, 0); }
struct fv_key<std::pair<A, B>>
{
    static uint64_t sub(const A& a) { return __fv_uf4("fvkey", 0, fv_key<A>::word(a, 0), fv_key<A>::word(a, 1), fv_key<A>::word(a, 2)); }
    static uint64_t word(const std::pair<A, B>& k, int i) { return i == 0 ? sub(k.first) : i == 1 ? sub(k.second) : 0; }
};
// a data invariant of stored values: what it assumes of arbitrary values, contracts show of values written
template <class V>
struct fv_admit
{
    static void assume(const V&) {}
};
template <class V, class = void>
struct fv_value
{};
template <class V>
struct fv_value<V, std::enable_if_t<std::is_integral_v<V> || std::is_enum_v<V>>>
{
    static V make(uint64_t id, uint64_t a, uint64_t b, uint64_t c)
    {
        const V v = static_cast<V>(__fv_uf4("fvvalue", id, a, b, c));
        fv_admit<V>::assume(v);
        return v;
    }
};

namespace priv
{
template <class K>
using hash_default_hash = std::hash<K>;
template <class K>
using hash_default_eq = std::equal_to<K>;

struct ident
{
    template <class T>
    const T& operator()(const T& t) const { return t; }
};
struct first
{
    template <class T>
    const auto& operator()(const T& t) const { return t.first; }
};
inline uint64_t __fv_versions = 1;
// a list of the keys written or looked at so far
template <class K, class Slot, class Key>
class table
{
  protected:
    struct node
    {
        Slot  v;
        bool  present;
        node* next;
        template <class... A>
        explicit node(bool p, node* n, A&&... a) : v(std::forward<A>(a)...), present{p}, next{n} {}
    };
    mutable node* head{nullptr};
    uint64_t      base{0};
    uint64_t      version{0};
    bool          enumerable{false};

    // ---- the enumeration of an arbitrary container
    uint64_t id() const { return (base << 32) | version; }
    bool     holds(const K& k) const
    {
        for (node* n = head; n != nullptr; n = n->next)
            if (key(n) == k) return n->present;
        return (__fv_uf4("fvpresent", base, fv_key<K>::word(k, 0), fv_key<K>::word(k, 1), fv_key<K>::word(k, 2)) & 1) != 0;
    }
    uint64_t measure() const
    {
        if (!enumerable) fv_not_enumerable();
        const uint64_t n = __fv_uf4("fvsize", id(), 0, 0, 0);
        __fv_assume(n < (1ull << 40));
        return n;
    }
    Slot* element(uint64_t i) const
    {
        if constexpr (requires { fv_key<K>::make(0, 0, 0); })
        {
            const K k = fv_key<K>::make(__fv_uf4("fvkeyat", id(), i, 0, 0), __fv_uf4("fvkeyat", id(), i, 1, 0), __fv_uf4("fvkeyat", id(), i, 2, 0));
            __fv_assume(holds(k));
            __fv_assume(fv_position(k) == i);
            if constexpr (std::is_same_v<K, Slot>) return new Slot(k);
            else
            {
                for (node* n = head; n != nullptr; n = n->next)
                    if (key(n) == k) return new Slot(n->v);
                if constexpr (requires { fv_value<std::remove_cv_t<typename Slot::second_type>>::make(base, 0, 0, 0); })
                    return new Slot(k, fv_value<std::remove_cv_t<typename Slot::second_type>>::make(base, fv_key<K>::word(k, 0), fv_key<K>::word(k, 1), fv_key<K>::word(k, 2)));
            }
        }
        fv_not_enumerable();
        return nullptr;
    }
    // the contents have changed: `by` keys more
    void changed(int by)
    {
        if (base == 0 || !enumerable) return;
        const uint64_t n = measure();
        version = __fv_versions++;
        __fv_assume(measure() == n + static_cast<uint64_t>(by));
    }

    static const K& key(const node* n) { return Key{}(n->v); }
    node*           lookup(const K& k) const
    {
        for (node* n = head; n != nullptr; n = n->next)
            if (key(n) == k) return n;
        if (base != 0) return materialise(k);
        return nullptr;
    }
    node* materialise(const K& k) const
    {
        if constexpr (requires { fv_key<K>::word(k, 0); })
        {
            const uint64_t a = fv_key<K>::word(k, 0), b = fv_key<K>::word(k, 1), c = fv_key<K>::word(k, 2);
            const bool     p = (__fv_uf4("fvpresent", base, a, b, c) & 1) != 0;
            if constexpr (std::is_same_v<K, Slot>)
            {
                head = new node(p, head, k);
                return head;
            }
            else if constexpr (requires { fv_value<std::remove_cv_t<typename Slot::second_type>>::make(base, a, b, c); })
            {
                head = new node(p, head, k, fv_value<std::remove_cv_t<typename Slot::second_type>>::make(base, a, b, c));
                return head;
            }
        }
        fv_not_enumerable();
        return nullptr;
    }
    node* present(const K& k) const
    {
        node* n = lookup(k);
        return n != nullptr && n->present ? n : nullptr;
    }
    void copy(const table& o)
    {
        base       = o.base;
        version    = o.version;
        enumerable = o.enumerable;
        head       = nullptr;
        node** end = &head;
        for (node* n = o.head; n != nullptr; n = n->next)
        {
            *end = new node(n->present, nullptr, n->v);
            end  = &(*end)->next;
        }
    }
    void drop()
    {
#ifndef FV_SYMBOLIC  // memory reclamation is not part of the meaning
        for (node* n = head; n != nullptr;)
        {
            node* x = n->next;
            delete n;
            n = x;
        }
#endif
        head = nullptr;
    }

  public:
    using key_type        = K;
    using value_type      = Slot;
    using size_type       = size_t;
    using difference_type = ptrdiff_t;
    template <class T>
    struct iter
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type        = Slot;
        using difference_type   = ptrdiff_t;
        using pointer           = T*;
        using reference         = T&;
        const table* t{nullptr};
        node*        n{nullptr};  // an element
        uint64_t     i{0};        // its number, if the container is an arbitrary one that is iterated over
        iter() = default;
        iter(const table* c, node* m) : t{c}, n{m} {}
        iter(const table* c, uint64_t k) : t{c}, i{k} {}
        template <class U, class = std::enable_if_t<std::is_const_v<T> && !std::is_const_v<U>>>
        iter(const iter<U>& o) : t{o.t}, n{o.n}, i{o.i}
        {}
        T& operator*() const
        {
            if (t->base != 0 && n == nullptr) return *t->element(i);
            return n->v;
        }
        T*    operator->() const { return &**this; }
        iter& operator++()
        {
            if (t->base != 0)
            {
                if (n != nullptr) fv_not_enumerable();
                ++i;
            }
            else n = after(n->next);
            return *this;
        }
        iter operator++(int)
        {
            iter r{*this};
            ++*this;
            return r;
        }
        template <class U>
        bool operator==(const iter<U>& o) const { return n == o.n && i == o.i; }
    };
    static node* after(node* n)
    {
        while (n != nullptr && !n->present) n = n->next;
        return n;
    }
    using const_iterator = iter<const Slot>;
    using iterator       = iter<std::conditional_t<std::is_same_v<K, Slot>, const Slot, Slot>>;

    table() = default;
    table(const table& o) { copy(o); }
    table(table&& o) noexcept : head{o.head}, base{o.base}, version{o.version}, enumerable{o.enumerable}
    {
        o.head    = nullptr;
        o.base    = 0;
        o.version = 0;
    }
    table& operator=(const table& o)
    {
        if (this != &o)
        {
            drop();
            copy(o);
        }
        return *this;
    }
    table& operator=(table&& o) noexcept
    {
        std::swap(head, o.head);
        std::swap(base, o.base);
        std::swap(version, o.version);
        std::swap(enumerable, o.enumerable);
        return *this;
    }
    ~table() { drop(); }

    // the container is an arbitrary one from now on; one that can be iterated over and measured, if so wanted
    void fv_arbitrary(uint64_t id, bool enumerated = false)
    {
        head       = nullptr;
        base       = id;
        version    = 0;
        enumerable = enumerated;
    }

    // where the enumeration has the given key, if it does
    uint64_t fv_position(const K& k) const
    {
        if (base == 0) return 0;
        const uint64_t i = __fv_uf4("fvposition", id(), fv_key<K>::word(k, 0), fv_key<K>::word(k, 1), fv_key<K>::word(k, 2));
        __fv_assume(!holds(k) || i < measure());
        return i;
    }
    // the key is at its position
    void fv_enumerates(const K& k) const
    {
        if (base == 0) return;
        if constexpr (requires { fv_key<K>::make(0, 0, 0); })
        {
            const uint64_t i = fv_position(k);
            __fv_assume(!holds(k) || fv_key<K>::make(__fv_uf4("fvkeyat", id(), i, 0, 0), __fv_uf4("fvkeyat", id(), i, 1, 0), __fv_uf4("fvkeyat", id(), i, 2, 0)) == k);
        }
    }

    iterator begin()
    {
        if (base != 0)
        {
            if (!enumerable) fv_not_enumerable();
            return iterator{this, uint64_t{0}};
        }
        return iterator{this, after(head)};
    }
    const_iterator begin() const { return const_cast<table*>(this)->begin(); }
    const_iterator cbegin() const { return begin(); }
    iterator       end()
    {
        if (base != 0 && enumerable) return iterator{this, measure()};
        return iterator{this, static_cast<node*>(nullptr)};
    }
    const_iterator end() const { return const_cast<table*>(this)->end(); }
    const_iterator cend() const { return end(); }
    iterator       find(const K& k)
    {
        node* n = present(k);
        return n == nullptr ? end() : iterator{this, n};
    }
    const_iterator find(const K& k) const { return const_cast<table*>(this)->find(k); }
    bool           contains(const K& k) const { return present(k) != nullptr; }
    size_t         count(const K& k) const { return present(k) != nullptr ? 1 : 0; }
    size_t         size() const
    {
        if (base != 0) return measure();
        size_t r = 0;
        for (node* n = head; n != nullptr; n = n->next) r += n->present ? 1 : 0;
        return r;
    }
    bool empty() const { return size() == 0; }
    void clear()
    {
        drop();
        base = 0;
    }
    void   reserve(size_t) {}
    size_t erase(const K& k)
    {
        node* n = present(k);
        if (n == nullptr) return 0;
        n->present = false;
        changed(-1);
        return 1;
    }
    template <class T>
    iterator erase(const iter<T>& it)
    {
        iterator r{this, it.n};
        if (base == 0) ++r;
        it.n->present = false;
        changed(-1);
        return r;
    }
};
}  // namespace priv

template <class K, class H = void, class E = void, class A = void, size_t N = 4, class M = void>
class flat_hash_set : public priv::table<K, K, priv::ident>
{
    using base_t = priv::table<K, K, priv::ident>;
    using typename base_t::node;

  public:
    using typename base_t::iterator;
    flat_hash_set() = default;
    flat_hash_set(std::initializer_list<K> l)
    {
        for (const auto& k : l) insert(k);
    }
    template <class It>
    flat_hash_set(It a, It b)
    {
        for (; a != b; ++a) insert(*a);
    }
    std::pair<iterator, bool> insert(const K& k)
    {
        node* n = this->lookup(k);
        if (n != nullptr)
        {
            const bool fresh = !n->present;
            n->present       = true;
            if (fresh) this->changed(1);
            return {iterator{this, n}, fresh};
        }
        this->head = new node(true, this->head, k);
        this->changed(1);
        return {iterator{this, this->head}, true};
    }
    template <class It>
    void insert(It a, It b)
    {
        for (; a != b; ++a) insert(*a);
    }
    template <class... Args>
    std::pair<iterator, bool> emplace(Args&&... a) { return insert(K(std::forward<Args>(a)...)); }
    bool operator==(const flat_hash_set& o) const
    {
        if (this->size() != o.size()) return false;
        for (const auto& k : *this)
            if (!o.contains(k)) return false;
        return true;
    }
};

template <class K, class V, class H = void, class E = void, class A = void, size_t N = 4, class M = void>
class flat_hash_map : public priv::table<K, std::pair<const K, V>, priv::first>
{
    using base_t = priv::table<K, std::pair<const K, V>, priv::first>;
    using typename base_t::node;

    template <class... Args>
    std::pair<node*, bool> make(const K& k, Args&&... a)
    {
        node* n = this->lookup(k);
        if (n != nullptr)
        {
            if (n->present) return {n, false};
            std::destroy_at(&n->v.second);
            std::construct_at(&n->v.second, std::forward<Args>(a)...);
            n->present = true;
            this->changed(1);
            return {n, true};
        }
        this->head = new node(true, this->head, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<Args>(a)...));
        this->changed(1);
        return {this->head, true};
    }

  public:
    using typename base_t::const_iterator;
    using typename base_t::iterator;
    using mapped_type = V;
    flat_hash_map()   = default;
    flat_hash_map(std::initializer_list<std::pair<const K, V>> l)
    {
        for (const auto& s : l) make(s.first, s.second);
    }
    V&       operator[](const K& k) { return make(k).first->v.second; }
    V&       at(const K& k)
    {
        node* n = this->present(k);
        if (n == nullptr) throw std::out_of_range("phmap at()");
        return n->v.second;
    }
    const V& at(const K& k) const { return const_cast<flat_hash_map*>(this)->at(k); }
    std::pair<iterator, bool> insert(const std::pair<const K, V>& s)
    {
        const auto r = make(s.first, s.second);
        return {iterator{this, r.first}, r.second};
    }
    template <class KK, class... Args>
    std::pair<iterator, bool> emplace(KK&& k, Args&&... a)
    {
        const auto r = make(K(std::forward<KK>(k)), std::forward<Args>(a)...);
        return {iterator{this, r.first}, r.second};
    }
    template <class... Args>
    std::pair<iterator, bool> try_emplace(const K& k, Args&&... a)
    {
        const auto r = make(k, std::forward<Args>(a)...);
        return {iterator{this, r.first}, r.second};
    }
    template <class VV>
    std::pair<iterator, bool> insert_or_assign(const K& k, VV&& v)
    {
        const auto r = make(k, v);
        if (!r.second) r.first->v.second = std::forward<VV>(v);
        return {iterator{this, r.first}, r.second};
    }
};
template <class K, class H = void, class E = void, class A = void, size_t N = 4, class M = void>
using parallel_flat_hash_set = flat_hash_set<K, H, E, A, N, M>;
template <class K, class V, class H = void, class E = void, class A = void, size_t N = 4, class M = void>
using parallel_flat_hash_map = flat_hash_map<K, V, H, E, A, N, M>;
template <class K, class H = void, class E = void, class A = void>
using node_hash_set = flat_hash_set<K, H, E, A>;
template <class K, class V, class H = void, class E = void, class A = void>
using node_hash_map = flat_hash_map<K, V, H, E, A>;
template <class K, class C = std::less<K>>
using btree_set = std::set<K, C>;
template <class K, class V, class C = std::less<K>>
using btree_map = std::map<K, V, C>;
}  // namespace phmap
