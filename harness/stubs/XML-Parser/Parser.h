// Stand-in, see Tag.h
#pragma once
#include "Tag.h"

#include <fstream>
#include <sstream>
#include <variant>

namespace xmlPrs {
namespace detail {
class Reader {
public:
  explicit Reader(std::string t) : text(std::move(t)) {}

  Root root() {
    skip();
    if (text.compare(at, 2, "<?") == 0) {
      at = text.find("?>", at);
      if (at == std::string::npos) {
        throw Error{"not terminated header"};
      }
      at += 2;
      skip();
    }
    expect('<');
    Root r{word()};
    content(r, r.getName().get());
    skip();
    if (at != text.size()) {
      throw Error{"something after the root"};
    }
    return r;
  }

private:
  void skip() {
    while (true) {
      while (at < text.size() && isspace(static_cast<unsigned char>(text[at]))) {
        ++at;
      }
      if (text.compare(at, 4, "<!--") != 0) {
        return;
      }
      at = text.find("-->", at);
      if (at == std::string::npos) {
        throw Error{"not terminated comment"};
      }
      at += 3;
    }
  }
  void expect(char c) {
    if (at >= text.size() || text[at] != c) {
      throw Error{std::string{"expected "} + c};
    }
    ++at;
  }
  std::string word() {
    const auto end = text.find_first_of(" \t\r\n<>=\"/", at);
    std::string r = text.substr(at, end == std::string::npos ? end : end - at);
    at += r.size();
    return r;
  }
  // attributes and nested tags, up to the closure
  void content(Tag &tag, const std::string &name) {
    while (true) {
      skip();
      if (at < text.size() && text[at] == '/') {
        ++at;
        expect('>');
        return;
      }
      if (at < text.size() && text[at] == '>') {
        ++at;
        break;
      }
      Name key{word()};
      expect('=');
      expect('"');
      const auto end = text.find('"', at);
      if (end == std::string::npos) {
        throw Error{"not terminated value"};
      }
      tag.getAttributes().emplace(key, plain(text.substr(at, end - at)));
      at = end + 1;
    }
    while (true) {
      skip();
      expect('<');
      if (at < text.size() && text[at] == '/') {
        ++at;
        if (word() != name) {
          throw Error{"another tag is closed"};
        }
        expect('>');
        return;
      }
      Name nested{word()};
      content(tag.addNested(nested), nested.get());
    }
  }
  static std::string plain(const std::string &value) {
    std::string r;
    for (std::size_t k = 0; k < value.size(); ++k) {
      bool done = false;
      for (auto &[from, to] : {std::pair<std::string, char>{"&amp;", '&'},
                               {"&lt;", '<'},
                               {"&quot;", '"'}}) {
        if (!done && value.compare(k, from.size(), from) == 0) {
          r += to;
          k += from.size() - 1;
          done = true;
        }
      }
      if (!done) {
        r += value[k];
      }
    }
    return r;
  }

  std::string text;
  std::size_t at = 0;
};
} // namespace detail

inline std::variant<Root, Error> parse_xml(const std::string &file) {
  std::ifstream stream{file};
  if (!stream.is_open()) {
    return Error{file + " is not a readable file"};
  }
  std::ostringstream content;
  content << stream.rdbuf();
  try {
    return detail::Reader{content.str()}.root();
  } catch (const Error &e) {
    return e;
  }
}
} // namespace xmlPrs
