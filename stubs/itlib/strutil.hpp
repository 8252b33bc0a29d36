#pragma once
#include <string_view>
namespace itlib {
constexpr bool starts_with(std::string_view s, std::string_view p) { return s.length() >= p.length() && s.substr(0, p.length()) == p; }
constexpr bool starts_with(std::string_view s, char c) { return !s.empty() && s.front() == c; }
constexpr bool ends_with(std::string_view s, std::string_view p) { return s.length() >= p.length() && s.substr(s.length() - p.length()) == p; }
}
