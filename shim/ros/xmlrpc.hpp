#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace XmlRpc {
struct XmlRpcException : std::runtime_error {
    XmlRpcException(const std::string& m, int = -1) : std::runtime_error(m) {}
    const std::string getMessage() const { return what(); }
};
class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    typedef std::vector<XmlRpcValue> ValueArray;
    typedef std::map<std::string, XmlRpcValue> ValueStruct;
    typedef ValueStruct::iterator iterator;
    typedef ValueStruct::const_iterator const_iterator;
    XmlRpcValue() {}
    XmlRpcValue(bool v) : t(TypeBoolean), b(v) {}
    XmlRpcValue(int v) : t(TypeInt), i(v) {}
    XmlRpcValue(double v) : t(TypeDouble), d(v) {}
    XmlRpcValue(const std::string& v) : t(TypeString), s(v) {}
    XmlRpcValue(const char* v) : t(TypeString), s(v) {}
    Type getType() const { return t; }
    bool valid() const { return t != TypeInvalid; }
    int size() const {
        switch (t) {
            case TypeString: return static_cast<int>(s.size());
            case TypeArray: return static_cast<int>(a.size());
            case TypeStruct: return static_cast<int>(m.size());
            default: throw XmlRpcException("type error");
        }
    }
    void setSize(int n) { become(TypeArray); a.resize(n); }
    bool hasMember(const std::string& k) const { return t == TypeStruct && m.count(k); }
    operator bool&() { become(TypeBoolean); return b; }
    operator int&() { become(TypeInt); return i; }
    operator double&() { become(TypeDouble); return d; }
    operator std::string&() { become(TypeString); return s; }
    operator const bool&() const { need(TypeBoolean); return b; }
    operator const int&() const { need(TypeInt); return i; }
    operator const double&() const { need(TypeDouble); return d; }
    operator const std::string&() const { need(TypeString); return s; }
    XmlRpcValue& operator[](int k) { become(TypeArray); if (k >= (int)a.size()) a.resize(k + 1); return a.at(k); }
    const XmlRpcValue& operator[](int k) const { need(TypeArray); return a.at(k); }
    XmlRpcValue& operator[](const std::string& k) { become(TypeStruct); return m[k]; }
    XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
    const XmlRpcValue& operator[](const std::string& k) const { need(TypeStruct); static const XmlRpcValue none; auto x = m.find(k); return x == m.end() ? none : x->second; }
    const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
    iterator begin() { need(TypeStruct); return m.begin(); }
    iterator end() { need(TypeStruct); return m.end(); }
    const_iterator begin() const { need(TypeStruct); return m.begin(); }
    const_iterator end() const { need(TypeStruct); return m.end(); }
private:
    void need(Type x) const { if (t != x) throw XmlRpcException("type error"); }
    void become(Type x) { if (t == TypeInvalid) t = x; else need(x); }
    Type t{TypeInvalid};
    bool b{false};
    int i{0};
    double d{0.0};
    std::string s;
    ValueArray a;
    ValueStruct m;
};
}
