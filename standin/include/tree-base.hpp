// Stand-in for tree-gen's support library: tree::base (Maybe, One, Any, Many, Link, OptLink, Base).
#pragma once
#include <cassert>
#include <cstddef>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"
namespace tree::base {
using ::tree::signed_size_t;
struct NotWellFormed : std::runtime_error { using std::runtime_error::runtime_error; };
class Base : public annotatable::Annotatable {
public:
    Base() = default;
    Base(const Base&) = default;
    virtual ~Base() = default;
    virtual bool complete() const { return true; }
};
template <class T> class One;
template <class T> class Maybe {
protected:
    std::shared_ptr<T> val;
public:
    Maybe() = default;
    template <class S> Maybe(const std::shared_ptr<S>& v) : val{ std::static_pointer_cast<T>(v) } {}
    template <class S> Maybe(const Maybe<S>& v) : val{ std::static_pointer_cast<T>(v.get_ptr()) } {}
    Maybe(const Maybe&) = default;
    Maybe& operator=(const Maybe&) = default;
    virtual ~Maybe() = default;
    void set_raw(T* ob) { val = std::shared_ptr<T>{ ob }; }
    template <class S> void set(const std::shared_ptr<S>& v) { val = v; }
    template <class S> void set(const Maybe<S>& v) { val = v.get_ptr(); }
    void reset() { val.reset(); }
    bool empty() const { return !val; }
    std::size_t size() const { return val ? 1 : 0; }
    std::shared_ptr<T> get_ptr() const { return val; }
    T& operator*() const { if (!val) throw std::out_of_range("dereferencing empty Maybe/One object"); return *val; }
    T* operator->() const { if (!val) throw std::out_of_range("dereferencing empty Maybe/One object"); return val.get(); }
    template <class S> std::shared_ptr<S> as() const { return std::dynamic_pointer_cast<S>(val); }
    bool operator==(const Maybe& rhs) const { return val == rhs.val; }
    bool is_well_formed() const { return !val || val->complete(); }
    void check_well_formed() const { if (!is_well_formed()) throw NotWellFormed("tree is not well-formed"); }
    bool equals(const Maybe& rhs) const { return (!val && !rhs.val) || (val && rhs.val && val->equals(*rhs.val)); }
    Maybe copy() const { return val ? Maybe{ val->copy().template as<T>() } : Maybe{}; }
    Maybe clone() const { return val ? Maybe{ val->clone().template as<T>() } : Maybe{}; }
};
template <class T> class One : public Maybe<T> {
public:
    One() = default;
    template <class S> One(const std::shared_ptr<S>& v) : Maybe<T>{ v } {}
    template <class S> One(const Maybe<S>& v) : Maybe<T>{ v } {}
    One(const One&) = default;
    One& operator=(const One&) = default;
    One copy() const { return this->val ? One{ this->val->copy().template as<T>() } : One{}; }
    One clone() const { return this->val ? One{ this->val->clone().template as<T>() } : One{}; }
};
template <class T> class Any {
protected:
    std::vector<One<T>> vec;
public:
    Any() = default;
    Any(std::initializer_list<One<T>> il) : vec{ il } {}
    virtual ~Any() = default;
    Any(const Any&) = default;
    Any& operator=(const Any&) = default;
    template <class S> void add(const std::shared_ptr<S>& ob, signed_size_t pos = -1) { add(One<T>{ ob }, pos); }
    template <class S> void add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty()) return;
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size()) vec.emplace_back(One<T>{ ob.get_ptr() });
        else vec.insert(vec.begin() + pos, One<T>{ ob.get_ptr() });
    }
    void add_raw(T* ob, signed_size_t pos = -1) { add(One<T>{ std::shared_ptr<T>{ ob } }, pos); }
    void extend(const Any& other) { vec.insert(vec.end(), other.vec.begin(), other.vec.end()); }
    void remove(signed_size_t pos = -1) { if (pos < 0 || static_cast<std::size_t>(pos) >= vec.size()) vec.pop_back(); else vec.erase(vec.begin() + pos); }
    void reset() { vec.clear(); }
    std::vector<One<T>>& get_vec() { return vec; }
    const std::vector<One<T>>& get_vec() const { return vec; }
    std::size_t size() const { return vec.size(); }
    bool empty() const { return vec.empty(); }
    One<T>& at(std::size_t i) { return vec.at(i); }
    const One<T>& at(std::size_t i) const { return vec.at(i); }
    One<T>& operator[](std::size_t i) { return vec.at(i); }
    const One<T>& operator[](std::size_t i) const { return vec.at(i); }
    One<T>& front() { return vec.front(); }
    const One<T>& front() const { return vec.front(); }
    One<T>& back() { return vec.back(); }
    const One<T>& back() const { return vec.back(); }
    auto begin() { return vec.begin(); }
    auto begin() const { return vec.begin(); }
    auto end() { return vec.end(); }
    auto end() const { return vec.end(); }
    bool operator==(const Any& rhs) const { return vec == rhs.vec; }
    bool equals(const Any& rhs) const {
        if (vec.size() != rhs.vec.size()) return false;
        for (std::size_t i = 0; i < vec.size(); i++) if (!vec[i].equals(rhs.vec[i])) return false;
        return true;
    }
    Any copy() const { Any r; for (auto& x : vec) r.vec.push_back(x.copy()); return r; }
    Any clone() const { Any r; for (auto& x : vec) r.vec.push_back(x.clone()); return r; }
};
template <class T> class Many : public Any<T> {
public:
    using Any<T>::Any;
    Many() = default;
    Many copy() const { Many r; for (auto& x : this->vec) r.vec.push_back(x.copy()); return r; }
    Many clone() const { Many r; for (auto& x : this->vec) r.vec.push_back(x.clone()); return r; }
};
template <class T> class OptLink {
protected:
    std::weak_ptr<T> val;
public:
    OptLink() = default;
    template <class S> OptLink(const std::shared_ptr<S>& v) : val{ std::static_pointer_cast<T>(v) } {}
    template <class S> OptLink(const Maybe<S>& v) : val{ std::static_pointer_cast<T>(v.get_ptr()) } {}
    OptLink(const OptLink&) = default;
    OptLink& operator=(const OptLink&) = default;
    virtual ~OptLink() = default;
    bool empty() const { return val.expired(); }
    std::shared_ptr<T> get_ptr() const { return val.lock(); }
    T& operator*() const { auto p = val.lock(); if (!p) throw std::out_of_range("dereferencing empty (Opt)Link object"); return *p; }
    T* operator->() const { auto p = val.lock(); if (!p) throw std::out_of_range("dereferencing empty (Opt)Link object"); return p.get(); }
    bool operator==(const OptLink& rhs) const { return val.lock() == rhs.val.lock(); }
    bool equals(const OptLink& rhs) const { return *this == rhs; }
};
template <class T> class Link : public OptLink<T> {
public:
    Link() = default;
    template <class S> Link(const std::shared_ptr<S>& v) : OptLink<T>{ v } {}
    template <class S> Link(const Maybe<S>& v) : OptLink<T>{ v } {}
    Link(const Link&) = default;
    Link& operator=(const Link&) = default;
};
// text form used in place of the CBOR byte string; types and values of the test harnesses read it back
template <class T> std::string serialize(const Maybe<T>& tree) {
    std::ostringstream os;
    if (!tree.empty()) tree->dump_text(os);
    return os.str();
}
template <class T> One<T> deserialize(const std::string& text) { return T::from_text(text); }
}  // namespace tree::base
