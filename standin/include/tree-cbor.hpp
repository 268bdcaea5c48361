// Stand-in for tree-gen's CBOR support: maps and arrays of typed values, kept in memory.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
namespace tree::cbor {
struct Item;
using ItemPtr = std::shared_ptr<Item>;
struct Bin { std::string s; };
struct Item { std::variant<std::monostate, bool, std::int64_t, double, std::string, Bin, std::vector<ItemPtr>, std::map<std::string, ItemPtr>> v; };
class ArrayReader; class MapReader;
class Reader {
protected:
    ItemPtr it;
    template <class T> const T& get() const { if (auto p = std::get_if<T>(&it->v)) return *p; throw std::runtime_error("unexpected CBOR structure"); }
public:
    Reader() : it{ std::make_shared<Item>() } {}
    explicit Reader(ItemPtr i) : it{ std::move(i) } {}
    bool as_bool() const { return get<bool>(); }
    std::int64_t as_int() const { return get<std::int64_t>(); }
    double as_float() const { return get<double>(); }
    std::string as_string() const { return get<std::string>(); }
    std::string as_binary() const { return get<Bin>().s; }
    ArrayReader as_array() const;
    MapReader as_map() const;
};
class ArrayReader : public std::vector<Reader> { public: ArrayReader() = default; };
class MapReader : public std::map<std::string, Reader> { public: MapReader() = default; };
inline ArrayReader Reader::as_array() const { ArrayReader r; for (auto& x : get<std::vector<ItemPtr>>()) r.emplace_back(x); return r; }
inline MapReader Reader::as_map() const { MapReader r; for (auto& [k, x] : get<std::map<std::string, ItemPtr>>()) r.emplace(k, Reader{ x }); return r; }
class MapWriter; 
class ArrayWriter {
    std::shared_ptr<std::vector<ItemPtr>> out; ItemPtr self;
    void put(Item i) { std::get<std::vector<ItemPtr>>(self->v).push_back(std::make_shared<Item>(std::move(i))); }
public:
    explicit ArrayWriter(ItemPtr s) : self{ std::move(s) } {}
    void append_bool(bool x) { put({ x }); }
    void append_int(std::int64_t x) { put({ x }); }
    void append_float(double x) { put({ x }); }
    void append_string(const std::string& x) { put({ x }); }
    void append_binary(const std::string& x) { put({ Bin{ x } }); }
    void close() {}
};
class MapWriter {
    ItemPtr self;
    void put(const std::string& k, Item i) { std::get<std::map<std::string, ItemPtr>>(self->v)[k] = std::make_shared<Item>(std::move(i)); }
public:
    MapWriter() : self{ std::make_shared<Item>(Item{ std::map<std::string, ItemPtr>{} }) } {}
    explicit MapWriter(ItemPtr s) : self{ std::move(s) } {}
    ItemPtr item() const { return self; }
    void append_bool(const std::string& k, bool x) { put(k, { x }); }
    void append_int(const std::string& k, std::int64_t x) { put(k, { x }); }
    void append_float(const std::string& k, double x) { put(k, { x }); }
    void append_string(const std::string& k, const std::string& x) { put(k, { x }); }
    void append_binary(const std::string& k, const std::string& x) { put(k, { Bin{ x } }); }
    ArrayWriter append_array(const std::string& k) {
        auto i = std::make_shared<Item>(Item{ std::vector<ItemPtr>{} });
        std::get<std::map<std::string, ItemPtr>>(self->v)[k] = i;
        return ArrayWriter{ i };
    }
    MapWriter append_map(const std::string& k) {
        auto i = std::make_shared<Item>(Item{ std::map<std::string, ItemPtr>{} });
        std::get<std::map<std::string, ItemPtr>>(self->v)[k] = i;
        return MapWriter{ i };
    }
    void close() {}
};
}  // namespace tree::cbor
