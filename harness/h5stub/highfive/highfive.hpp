// Stand-in for HighFive (which this sandbox lacks): the part of its interface that deals with groups, data sets and
// attributes, on trees kept in memory, one for each path. A file of this path exists as long as the tree does.
// Links are listed in the order of their names, as in HDF5. Numbers are converted as HDF5 does: out of range values
// become the nearest one of the target, fractions are cut off; texts and numbers are not converted into each other.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

// The real headers bring these along.
#include <algorithm>
#include <functional>
#include <iterator>
#include <numeric>
#include <sstream>

namespace HighFive
{
class Exception : public std::exception
{
public:
    explicit Exception(const std::string &m) : m_(m) {}
    const char *what() const noexcept override { return m_.c_str(); }

private:
    std::string m_;
};
#define H5STUB_EXC(name)                \
    class name : public Exception       \
    {                                   \
    public:                             \
        using Exception::Exception;     \
    };
H5STUB_EXC(FileException)
H5STUB_EXC(GroupException)
H5STUB_EXC(DataSetException)
H5STUB_EXC(DataSpaceException)
H5STUB_EXC(AttributeException)
H5STUB_EXC(DataTypeException)
H5STUB_EXC(ObjectException)
#undef H5STUB_EXC

enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };
enum class IndexType : unsigned { NAME = 0, CRT_ORDER = 1 };

namespace stub
{
using Number = long double;  // holds every 64 bit integer and every double
template <class T, class = void>
struct is_list : std::false_type {};
template <class T, class A>
struct is_list<std::vector<T, A>> : std::true_type {};
template <class T, size_t N>
struct is_list<std::array<T, N>> : std::true_type {};

enum class Kind { integer, real, boolean, text };
template <class T>
constexpr Kind kind_of()
{
    if constexpr (std::is_same_v<T, bool>) return Kind::boolean;
    else if constexpr (std::is_integral_v<T>) return Kind::integer;
    else if constexpr (std::is_floating_point_v<T>) return Kind::real;
    else
    {
        static_assert(std::is_convertible_v<T, std::string>, "type that the stand-in for HighFive does not know");
        return Kind::text;
    }
}
template <class T>
T convert(Number v)
{
    if constexpr (std::is_same_v<T, bool>) return v != 0;
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(v);
    else
    {
        if (std::isnan(v)) return 0;
        if (v <= static_cast<Number>(std::numeric_limits<T>::min())) return std::numeric_limits<T>::min();
        if (v >= static_cast<Number>(std::numeric_limits<T>::max())) return std::numeric_limits<T>::max();
        return static_cast<T>(v);
    }
}
struct Values
{
    Kind kind = Kind::integer;
    bool scalar = false;
    std::vector<Number> numbers;
    std::vector<std::string> texts;
    size_t size() const { return kind == Kind::text ? texts.size() : numbers.size(); }

    template <class T>
    void push(const T &v)
    {
        if constexpr (kind_of<T>() == Kind::text) texts.push_back(v);
        else numbers.push_back(v);
    }
    template <class T>
    static Values make(const T &v)
    {
        Values r;
        if constexpr (is_list<T>::value)
        {
            r.kind = kind_of<typename T::value_type>();
            for (const auto &x : v) r.push<typename T::value_type>(x);
        }
        else
        {
            r.scalar = true;
            r.kind = kind_of<std::decay_t<T>>();
            r.push<std::decay_t<T>>(v);
        }
        return r;
    }
    template <class T>
    T one(size_t i) const
    {
        if constexpr (kind_of<T>() == Kind::text)
        {
            if (kind != Kind::text) throw DataTypeException("a number is read as text");
            return texts[i];
        }
        else
        {
            if (kind == Kind::text) throw DataTypeException("a text is read as a number");
            if (kind_of<T>() == Kind::boolean && kind == Kind::real) throw DataTypeException("a number is read as boolean");
            return convert<T>(numbers[i]);
        }
    }
    template <class T>
    void get(T &to) const
    {
        if constexpr (is_list<T>::value)
        {
            if (scalar) throw DataSpaceException("a scalar is read as a list");
            if constexpr (std::is_same_v<T, std::vector<typename T::value_type>>) to.resize(size());
            else if (to.size() != size()) throw DataSpaceException("a list is read into an array of another size");
            for (size_t i = 0; i < size(); ++i) to[i] = one<typename T::value_type>(i);
        }
        else
        {
            if (size() != 1) throw DataSpaceException("a list is read as a scalar");
            to = one<T>(0);
        }
    }
};
struct Node
{
    bool group = true;
    Values values;
    std::map<std::string, std::shared_ptr<Node>> children;
    std::map<std::string, Values> attributes;
};
using Ptr = std::shared_ptr<Node>;
inline std::map<std::string, Ptr> &files()
{
    static std::map<std::string, Ptr> f;
    return f;
}
inline std::string key(const std::string &path) { return std::filesystem::weakly_canonical(path).string(); }
inline std::vector<std::string> parts(const std::string &path)
{
    std::vector<std::string> r;
    std::string p;
    for (char c : path + "/")
        if (c == '/')
        {
            if (!p.empty() && p != ".") r.push_back(p);
            p.clear();
        }
        else p += c;
    return r;
}
inline Ptr find(Ptr at, const std::string &path)
{
    for (auto &p : parts(path))
    {
        auto i = at->children.find(p);
        if (i == at->children.end()) return nullptr;
        at = i->second;
    }
    return at;
}
template <class E>
Ptr create(Ptr at, const std::string &path, bool group)
{
    const auto ps = parts(path);
    if (ps.empty()) throw E("unable to create an object without a name");
    for (size_t i = 0; i < ps.size(); ++i)
    {
        if (!at->group) throw E("unable to create \"" + path + "\" within a data set");
        auto &child = at->children[ps[i]];
        if (i + 1 == ps.size() && child) throw E("unable to create \"" + path + "\": name already exists");
        if (!child) child = std::make_shared<Node>();
        at = child;
    }
    at->group = group;
    return at;
}
}  // namespace stub

class DataSpace
{
public:
    explicit DataSpace(std::vector<size_t> d) : d_(std::move(d)) {}
    static DataSpace Scalar() { return DataSpace(std::vector<size_t>{}); }
    template <class T>
    static DataSpace From(const T &v)
    {
        auto x = stub::Values::make(v);
        return x.scalar ? Scalar() : DataSpace({x.size()});
    }
    std::vector<size_t> getDimensions() const { return d_; }
    size_t getNumberDimensions() const { return d_.size(); }
    size_t getElementCount() const
    {
        size_t n = 1;
        for (auto x : d_) n *= x;
        return n;
    }

private:
    std::vector<size_t> d_;
};

class Attribute
{
public:
    explicit Attribute(stub::Ptr node, const std::string &name) : node_(node), name_(name) {}
    std::string getName() const { return name_; }
    DataSpace getSpace() const { return values().scalar ? DataSpace::Scalar() : DataSpace({values().size()}); }
    template <class T>
    T read() const
    {
        T r{};
        values().get(r);
        return r;
    }
    template <class T>
    void read(T &to) const { values().get(to); }
    template <class T>
    void write(const T &v) { node_->attributes[name_] = stub::Values::make(v); }

private:
    const stub::Values &values() const
    {
        auto i = node_->attributes.find(name_);
        if (i == node_->attributes.end()) throw AttributeException("no attribute \"" + name_ + "\"");
        return i->second;
    }
    stub::Ptr node_;
    std::string name_;
};

class WithAttributes
{
public:
    WithAttributes() = default;
    explicit WithAttributes(stub::Ptr n) : node_(n) {}
    template <class T>
    Attribute createAttribute(const std::string &name, const T &v)
    {
        if (node_->attributes.count(name)) throw AttributeException("unable to create the attribute \"" + name + "\": it already exists");
        node_->attributes[name] = stub::Values::make(v);
        return Attribute(node_, name);
    }
    template <class T>
    Attribute createAttribute(const std::string &name, const DataSpace &, const T &v) { return createAttribute(name, v); }
    Attribute getAttribute(const std::string &name) const
    {
        if (!hasAttribute(name)) throw AttributeException("unable to open the attribute \"" + name + "\"");
        return Attribute(node_, name);
    }
    bool hasAttribute(const std::string &name) const { return node_->attributes.count(name) != 0; }
    void deleteAttribute(const std::string &name)
    {
        if (!node_->attributes.erase(name)) throw AttributeException("unable to delete the attribute \"" + name + "\"");
    }
    size_t getNumberAttributes() const { return node_->attributes.size(); }
    std::vector<std::string> listAttributeNames() const
    {
        std::vector<std::string> r;
        for (auto &x : node_->attributes) r.push_back(x.first);
        return r;
    }
    bool isValid() const { return node_ != nullptr; }

protected:
    stub::Ptr node_;
};

class DataSet : public WithAttributes
{
public:
    using WithAttributes::WithAttributes;
    std::vector<size_t> getDimensions() const { return getSpace().getDimensions(); }
    size_t getElementCount() const { return node_->values.size(); }
    DataSpace getSpace() const { return node_->values.scalar ? DataSpace::Scalar() : DataSpace({node_->values.size()}); }
    template <class T>
    T read() const
    {
        T r{};
        node_->values.get(r);
        return r;
    }
    template <class T>
    void read(T &to) const { node_->values.get(to); }
    template <class T>
    void write(const T &v)
    {
        auto n = stub::Values::make(v);
        if (n.size() != node_->values.size()) throw DataSpaceException("data of another size is written");
        node_->values = n;
    }
};

class Group : public WithAttributes
{
public:
    Group() = default;
    explicit Group(stub::Ptr n) : WithAttributes(n) {}
    Group createGroup(const std::string &name, bool = true) { return Group(stub::create<GroupException>(node_, name, true)); }
    Group getGroup(const std::string &name) const
    {
        auto n = stub::find(node_, name);
        if (!n || !n->group) throw GroupException("unable to open the group \"" + name + "\"");
        return Group(n);
    }
    template <class T>
    DataSet createDataSet(const std::string &name, const T &v)
    {
        auto values = stub::Values::make(v);
        auto n = stub::create<DataSetException>(node_, name, false);
        n->values = values;
        return DataSet(n);
    }
    DataSet getDataSet(const std::string &name) const
    {
        auto n = stub::find(node_, name);
        if (!n || n->group) throw DataSetException("unable to open the data set \"" + name + "\"");
        return DataSet(n);
    }
    bool exist(const std::string &name, bool = true) const { return stub::find(node_, name) != nullptr; }
    void unlink(const std::string &name) const
    {
        if (!node_->children.erase(name)) throw GroupException("invalid name for unlink()");
    }
    size_t getNumberObjects() const { return node_->children.size(); }
    std::string getObjectName(size_t i) const
    {
        if (i >= node_->children.size()) throw GroupException("no object of this number");
        return std::next(node_->children.begin(), i)->first;
    }
    std::vector<std::string> listObjectNames(IndexType = IndexType::NAME) const
    {
        std::vector<std::string> r;
        for (auto &x : node_->children) r.push_back(x.first);
        return r;
    }
    ObjectType getObjectType(const std::string &name) const
    {
        auto n = stub::find(node_, name);
        if (!n) throw GroupException("no object of this name");
        return n->group ? ObjectType::Group : ObjectType::Dataset;
    }
};

class File : public Group
{
public:
    enum class AccessMode : unsigned { None = 0, ReadOnly = 1, ReadWrite = 2, Truncate = 4, Excl = 8, Create = 16, Overwrite = Truncate, OpenOrCreate = ReadWrite | Create };
    static constexpr AccessMode ReadOnly = AccessMode::ReadOnly, ReadWrite = AccessMode::ReadWrite, Truncate = AccessMode::Truncate, Excl = AccessMode::Excl,
                                Create = AccessMode::Create, Overwrite = AccessMode::Overwrite, OpenOrCreate = AccessMode::OpenOrCreate;
    explicit File(const std::string &path, AccessMode mode = ReadOnly) : path_(path)
    {
        const auto m = static_cast<unsigned>(mode);
        const auto k = stub::key(path);
        const bool there = std::filesystem::is_regular_file(path) && stub::files().count(k);
        if (m & 4 || (!there && m & 24))
        {
            std::ofstream f(path);
            if (!f) throw FileException("unable to create file " + path);
            f << "\x89HDF stand-in\n";
            stub::files()[k] = std::make_shared<stub::Node>();
        }
        else if (!there) throw FileException("unable to open file " + path);
        else if (m & 8) throw FileException("unable to create file " + path + ": it exists");
        node_ = stub::files()[k];
    }
    const std::string &getName() const { return path_; }
    std::string getPath() const { return "/"; }
    void flush() {}

private:
    std::string path_;
};
inline File::AccessMode operator|(File::AccessMode a, File::AccessMode b) { return static_cast<File::AccessMode>(static_cast<unsigned>(a) | static_cast<unsigned>(b)); }
}  // namespace HighFive
