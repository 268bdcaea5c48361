// Stand-in for tree-gen's support library (not installable offline): the documented interface of
// tree::annotatable, written for /verif.  Used to parse and to run /repo's sources; its behaviour is an
// assumption of every check that uses it (see DESIGN.md, "stand-ins").
#pragma once
#include <memory>
#include <stdexcept>
#include <typeindex>
#include <unordered_map>
#include <utility>
namespace tree {
using signed_size_t = long;
namespace annotatable {
class Annotatable {
    std::unordered_map<std::type_index, std::shared_ptr<void>> annotations_;
public:
    Annotatable() = default;
    Annotatable(const Annotatable&) = default;
    Annotatable& operator=(const Annotatable&) = default;
    virtual ~Annotatable() = default;
    template <class T> void set_annotation(const T& ob) { annotations_[std::type_index(typeid(T))] = std::make_shared<T>(ob); }
    template <class T> bool has_annotation() const { return annotations_.count(std::type_index(typeid(T))) > 0; }
    template <class T> T* get_annotation_ptr() {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : static_cast<T*>(it->second.get());
    }
    template <class T> const T* get_annotation_ptr() const {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : static_cast<const T*>(it->second.get());
    }
    template <class T> T& get_annotation() {
        if (auto p = get_annotation_ptr<T>()) return *p;
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <class T> const T& get_annotation() const {
        if (auto p = get_annotation_ptr<T>()) return *p;
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <class T> void erase_annotation() { annotations_.erase(std::type_index(typeid(T))); }
    template <class T> void copy_annotation(const Annotatable& src) {
        auto it = src.annotations_.find(std::type_index(typeid(T)));
        if (it == src.annotations_.end()) annotations_.erase(std::type_index(typeid(T)));
        else annotations_[std::type_index(typeid(T))] = std::make_shared<T>(*static_cast<const T*>(it->second.get()));
    }
};
}  // namespace annotatable
}  // namespace tree
