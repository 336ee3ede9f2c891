#pragma once
#include <array>
#include <algorithm>
#include <charconv>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <persistence/exception.hpp>
#include <persistence/bytes.hpp>
#include <persistence/datetime.hpp>
#include <persistence/object.hpp>
#include <persistence/enum.hpp>
#include <persistence/enum_utility.hpp>
#ifdef PERSISTENCE_BOOST_DESCRIBE
#include <boost/describe.hpp>
#endif

namespace vt
{
    // element type used inside containers
    struct Item
    {
        int a = 0;
        short b = 0;
        std::string c;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(c); }
        bool operator<(const Item& o) const { return a < o.a; }
        bool operator==(const Item& o) const { return a == o.a; }
    };
    struct Solo
    {
        long only = 0;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(only); }
    };
    struct Duo
    {
        std::string first;
        unsigned second = 0;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second); }
    };
    struct Base
    {
        int base_id = 0;
        std::string base_name;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(base_id) & MEMBER_VARIABLE(base_name); }
    };
    struct Derived : Base
    {
        double extra = 0;
        std::vector<int> list;
        template<typename A> constexpr auto persist(A& ar) { return this->Base::persist(ar) & MEMBER_VARIABLE(extra) & MEMBER_VARIABLE(list); }
    };
    struct Mixed
    {
        int req = 0;
        std::optional<std::string> opt;
        short def = 7;
        Item nested;
        std::optional<int> opt2;
        std::vector<Item> defs;
        bool last = false;
        template<typename A> constexpr auto persist(A& ar)
        {
            return ar & MEMBER_VARIABLE(req) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE_DEFAULT(def) & MEMBER_VARIABLE(nested)
                & MEMBER_VARIABLE(opt2) & MEMBER_VARIABLE_DEFAULT(defs) & NAMED_MEMBER_VARIABLE("final", last);
        }
    };
    enum class Num : short { A = 1, B = 2 };
    enum class NumU : unsigned char { A = 1, B = 200 };
    enum class NumL : long { A = -5, B = 7 };
    enum class NumI { A, B };
    enum class Prefixed : signed char { None = 7, A = -1, AB = 0, ABC = 100, Long1 = 50, Long2 = 51 };
    enum class Named { Alpha, Beta = 5, Gamma };
    struct Odd       // unusual member names
    {
        int none = 0;
        short slash = 0;
        std::string first;
        int second = 0;
        template<typename A> constexpr auto persist(A& ar)
        {
            return ar & NAMED_MEMBER_VARIABLE("", none) & NAMED_MEMBER_VARIABLE("a/b~1", slash)
                & NAMED_MEMBER_VARIABLE("a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_1", first) & NAMED_MEMBER_VARIABLE("a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_2", second);
        }
    };
    struct Wide1
    {
        bool flag = false;
        unsigned char byte = 0;
        double real = 0;
        Num number = Num::A;
        Prefixed choice = Prefixed::None;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(flag) & MEMBER_VARIABLE(byte) & MEMBER_VARIABLE(real) & MEMBER_VARIABLE(number) & MEMBER_VARIABLE(choice); }
    };
    struct Wide2
    {
        persistence::byte_vector blob;
        persistence::timestamp when;
        std::map<std::string, Item> table;
        std::set<int> keys;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(blob) & MEMBER_VARIABLE(when) & MEMBER_VARIABLE(table) & MEMBER_VARIABLE(keys); }
    };
    struct Wide3
    {
        std::array<int, 4> fixed{};
        std::tuple<int, Item, std::string> triple;
        std::unique_ptr<Item> owned;
        std::shared_ptr<Item> shared;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(fixed) & MEMBER_VARIABLE(triple) & MEMBER_VARIABLE(owned) & MEMBER_VARIABLE(shared); }
    };
    struct Wide4
    {
        std::optional<bool> maybe;
        std::optional<std::vector<Item>> some;
        std::optional<Item> inner;
        std::unique_ptr<Item> late;
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(maybe) & MEMBER_VARIABLE(some) & MEMBER_VARIABLE(inner) & MEMBER_VARIABLE_DEFAULT(late); }
    };
    struct Plainer   // like Mixed without defaulted members (the schema generator has its own roots)
    {
        int req = 0;
        std::optional<std::string> opt;
        Item nested;
        std::optional<int> opt2;
        std::vector<Item> many;
        template<typename A> constexpr auto persist(A& ar)
        {
            return ar & MEMBER_VARIABLE(req) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE(nested) & MEMBER_VARIABLE(opt2) & MEMBER_VARIABLE(many);
        }
    };

#ifdef PERSISTENCE_BOOST_DESCRIBE
    enum class Described : int { North = 3, South, East = 9 };
    BOOST_DESCRIBE_ENUM(Described, North, South, East)
    enum class Described2 : signed char { A = -1, AB = 0, ABC = 100, a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_1 = 50, a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_2 = 51 };
    BOOST_DESCRIBE_ENUM(Described2, A, AB, ABC, a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_1, a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_2)
#endif
}

namespace persistence
{
    template<>
    struct enum_traits<vt::Prefixed>
    {
        inline constexpr static auto converter = make_enum_converter({
            make_enum(vt::Prefixed::ABC, "ABC"),
            make_enum(vt::Prefixed::AB, "AB"),
            make_enum(vt::Prefixed::A, "A"),
            make_enum(vt::Prefixed::None, ""),
            make_enum(vt::Prefixed::Long1, "a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_1"),
            make_enum(vt::Prefixed::Long2, "a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_2")
        });
        static std::string_view to_string(vt::Prefixed value) { return converter.to_string(value); }
        static bool from_string(const std::string_view& name, vt::Prefixed& value) { return converter.from_string(name, value); }
    };
    template<>
    struct enum_traits<vt::Named>
    {
        inline constexpr static auto converter = make_enum_converter({
            make_enum(vt::Named::Alpha, "Alpha"),
            make_enum(vt::Named::Beta, "Beta"),
            make_enum(vt::Named::Gamma, "Gamma")
        });
        static std::string_view to_string(vt::Named value) { return converter.to_string(value); }
        static bool from_string(const std::string_view& name, vt::Named& value) { return converter.from_string(name, value); }
    };
}
