// Forced include for every analysed translation unit: names that gcc's headers leak and clang's do not.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <algorithm>
#include <any>
#include <array>
#include <charconv>
#include <climits>
#include <cmath>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
using std::nullptr_t;
