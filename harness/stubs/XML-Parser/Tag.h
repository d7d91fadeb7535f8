// Stand-in of the external library XML-Parser, which is not available offline:
// same interface (only what the sources of the repository use), trees of tags
// with repeatable attributes, printed and parsed as text.
#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <unordered_map>

namespace xmlPrs {
class Error : public std::runtime_error {
public:
  using std::runtime_error::runtime_error;
};

class Name {
public:
  Name(const char *n) : Name(std::string{n}) {}
  Name(const std::string &n) : name(n) {
    if (n.empty() || n.find_first_of(" \t\n<>=\"/&") != std::string::npos) {
      throw Error{"invalid name"};
    }
  }
  const std::string &get() const { return name; }
  bool operator==(const Name &o) const { return name == o.name; }

private:
  std::string name;
};
} // namespace xmlPrs

namespace std {
template <> struct hash<xmlPrs::Name> {
  std::size_t operator()(const xmlPrs::Name &n) const {
    return std::hash<std::string>{}(n.get());
  }
};
} // namespace std

namespace xmlPrs {
class Tag;
using TagPtr = std::unique_ptr<Tag>;
using Attributes = std::unordered_multimap<Name, std::string>;
using Nested = std::unordered_multimap<Name, TagPtr>;

class Tag {
public:
  Attributes &getAttributes() { return attributes; }
  const Attributes &getAttributes() const { return attributes; }
  const Nested &getNested() const { return nested; }

  Tag &addNested(const Name &name) {
    return *nested.emplace(name, std::make_unique<Tag>())->second;
  }
  // the first one with that name, created when missing
  Tag &operator[](const Name &name) {
    auto it = nested.find(name);
    return it == nested.end() ? addNested(name) : *it->second;
  }

protected:
  void print(std::ostream &out, const std::string &name,
             const std::string &indent) const {
    out << indent << "<" << name;
    for (auto &[key, value] : attributes) {
      out << " " << key.get() << "=\"";
      for (char c : value) {
        switch (c) {
        case '&':
          out << "&amp;";
          break;
        case '<':
          out << "&lt;";
          break;
        case '"':
          out << "&quot;";
          break;
        default:
          out << c;
        }
      }
      out << "\"";
    }
    if (nested.empty()) {
      out << "/>\n";
      return;
    }
    out << ">\n";
    for (auto &[key, tag] : nested) {
      tag->print(out, key.get(), indent + "  ");
    }
    out << indent << "</" << name << ">\n";
  }

private:
  Attributes attributes;
  Nested nested;
};

class Root : public Tag {
public:
  explicit Root(const std::string &name) : name(name) {}
  const Name &getName() const { return name; }
  void print(std::ostream &out) const { Tag::print(out, name.get(), ""); }

private:
  Name name;
};
} // namespace xmlPrs
