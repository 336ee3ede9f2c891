D = "datetime.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c14", edits=list(e))
def B(id, *e): return dict(id=id, keep=False, checks="c14", edits=list(e))
VARIANTS = [
 B("b14-leap100", (D, "(year % 4 == 0 && year % 100 != 0) || (year % 400 == 0)", "year % 4 == 0 && (year % 100 != 0 || year % 200 == 0)")),
 B("b14-nov31", (D, "            case 12:  // December\n", "            case 12:  // December\n            case 11:\n"), (D, "            case 11:  // November\n", "")),
 B("b14-day0", (D, "        if (day < 1) {\n            return false;\n        }\n", "")),
 B("b14-sec60", (D, "second >= 60", "second > 60")),
 B("b14-hour24", (D, "hour >= 24", "hour > 24")),
 B("b14-sep16", (D, "text[13] != ':' || text[16] != ':' ||", "text[13] != ':' ||")),
 B("b14-lenge", (D, "PERSISTENCE_IF_UNLIKELY(len != 20)", "PERSISTENCE_IF_UNLIKELY(len < 20)")),
 B("b14-partial", (D, "return result.ec == std::errc() && result.ptr == last;", "return result.ec == std::errc();")),
 B("b14-signed", (D, "auto result = std::from_chars(first, last, value);", "int v = 0;\n            auto result = std::from_chars(first, last, v);\n            value = v < 0 ? -v : v;")),
 B("b14-minsec", (D, "tm.tm_min = minute;\n        tm.tm_sec = second;", "tm.tm_min = second;\n        tm.tm_sec = minute;")),
 B("b14-year4", (D, "if (value < 10) {\n                    ptr += 3;", "if (value <= 10) {\n                    ptr += 3;")),
 B("b14-two10", (D, "if (value < 10) {\n                    ptr += 1;", "if (value <= 10) {\n                    ptr += 1;")),
 B("b14-month0", (D, "int month = calendar_time.tm_mon + 1;\n        int day = calendar_time.tm_mday;\n        int hour", "int month = calendar_time.tm_mon + (calendar_time.tm_mon < 11);\n        int day = calendar_time.tm_mday;\n        int hour")),
 B("b14-ymdswap", (D, "std::chrono::month(month), std::chrono::day(day)", "std::chrono::month(day > 12 ? month : day), std::chrono::day(day > 12 ? day : month)")),
 B("b14-noclock", (D, "t < lower || t > upper", "t < lower")),
 B("b14-2000", (D, "if (is_leap_year(year)) {", "if (is_leap_year(year) && year != 2400) {")),
 B("b14-refuse23", (D, "hour >= 24", "hour >= 23")),
 B("b14-refuseymd", (D, "year < 0 || year > 9999", "year <= 0 || year > 9999")),
 B("b14-ymdok", (D, "!value.ok() || ", "!value.month().ok() || !value.day().ok() || ")),
 B("b14-short", ("write_datetime.hpp", "static_cast<rapidjson::SizeType>(iso_datetime::length())", "static_cast<rapidjson::SizeType>(iso_datetime::length() - 1)")),
 B("b14-lower", (D, "(text[10] != 'T' && text[10] != ' ')", "(text[10] != 'T' && text[10] != ' ' && text[10] != 't')")),
 K("k14-manual", (D, "            auto result = std::from_chars(first, last, value);\n            return result.ec == std::errc() && result.ptr == last;", "            value = 0;\n            for (; first != last; ++first) {\n                if (*first < '0' || *first > '9') { return false; }\n                value = 10 * value + static_cast<unsigned>(*first - '0');\n            }\n            return true;")),
 K("k14-table", (D, '''        switch (month) {
            case 1:  // January
            case 3:  // March
            case 5:  // May
            case 7:  // July
            case 8:  // August
            case 10:  // October
            case 12:  // December
                return day <= 31;

            case 4:  // April
            case 6:  // June
            case 9:  // September
            case 11:  // November
                return day <= 30;

            case 2:  // February
                if (is_leap_year(year)) {
                    return day <= 29;
                } else {
                    return day <= 28;
                }

            default:
                return false;
        }''', '''        constexpr unsigned char days[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        if (month < 1 || month > 12) {
            return false;
        }
        unsigned last = days[month - 1];
        if (month == 2 && is_leap_year(year)) {
            ++last;
        }
        return day <= last;''')),
 K("k14-helper", (D, "        PERSISTENCE_IF_UNLIKELY(hour >= 24 || minute >= 60 || second >= 60) {", "        auto is_valid_time = [](unsigned h, unsigned m, unsigned s) { return h < 24 && m < 60 && s < 60; };\n        PERSISTENCE_IF_UNLIKELY(!is_valid_time(hour, minute, second)) {")),
 K("k14-reuse", (D, '''        PERSISTENCE_IF_UNLIKELY(
            !from_digits(text, text + 4, year) ||
            !from_digits(text + 5, text + 7, month) ||
            !from_digits(text + 8, text + 10, day) ||
            !from_digits(text + 11''', '''        PERSISTENCE_IF_UNLIKELY(!parse_date(text, 10, year, month, day)) {
            return false;
        }
        PERSISTENCE_IF_UNLIKELY(
            !from_digits(text + 11''')),
 K("k14-writer", (D, '''                char* last = ptr + 2;
                if (value < 10) {
                    ptr += 1;
                }
                return std::to_chars(ptr, last, value);''', '''                ptr[0] = static_cast<char>('0' + value / 10);
                ptr[1] = static_cast<char>('0' + value % 10);
                return std::to_chars_result { ptr + 2, std::errc() };''')),
 K("k14-writer4", (D, '''                char* last = ptr + 4;
                if (value < 10) {
                    ptr += 3;
                } else if (value < 100) {
                    ptr += 2;
                } else if (value < 1000) {
                    ptr += 1;
                }
                return std::to_chars(ptr, last, value);''', '''                for (int k = 3; k >= 0; --k) {
                    ptr[k] = static_cast<char>('0' + value % 10);
                    value /= 10;
                }
                return std::to_chars_result { ptr + 4, std::errc() };''')),
 K("k14-sepbool", (D, '''        PERSISTENCE_IF_UNLIKELY(
            text[4] != '-' || text[7] != '-' ||
            (text[10] != 'T' && text[10] != ' ') ||
            text[13] != ':' || text[16] != ':' || text[19] != 'Z'
        ) {
            return false;
        }
''', '''        const bool separators = text[4] == '-' && text[7] == '-' && (text[10] == 'T' || text[10] == ' ') && text[13] == ':' && text[16] == ':' && text[19] == 'Z';
        PERSISTENCE_IF_UNLIKELY(!separators) {
            return false;
        }
''')),
 K("k14-sepswitch", (D, "            (text[10] != 'T' && text[10] != ' ') ||\n", ""), (D, "        using detail::from_digits;\n        unsigned year, month, day, hour", "        switch (text[10]) {\n            case 'T':\n            case ' ':\n                break;\n            default:\n                return false;\n        }\n        using detail::from_digits;\n        unsigned year, month, day, hour")),
 K("k14-patterns", (D, '''        PERSISTENCE_IF_UNLIKELY(text[4] != '-' || text[7] != '-') {
            return false;
        }
''', '''        constexpr std::size_t separators[] = { 4, 7 };
        for (std::size_t k : separators) {
            PERSISTENCE_IF_UNLIKELY(text[k] != '-') {
                return false;
            }
        }
''')),
 K("k14-struct", (D, "        auto calendar_time = detail::posix_to_utc(posix_time);\n        int year = calendar_time.tm_year + 1900;\n        int month = calendar_time.tm_mon + 1;\n        int day = calendar_time.tm_mday;\n        int hour = calendar_time.tm_hour;", "        const std::tm calendar_time = detail::posix_to_utc(posix_time);\n        const int hour = calendar_time.tm_hour;\n        const int day = calendar_time.tm_mday, month = 1 + calendar_time.tm_mon, year = 1900 + calendar_time.tm_year;")),
 K("k14-arr", (D, "        unsigned year, month, day;\n        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, year, month, day)) {\n            return false;\n        }\n\n        return to_datetime(make_posix_time(year, month, day, 0, 0, 0), value);", "        unsigned fields[3];\n        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, fields[0], fields[1], fields[2])) {\n            return false;\n        }\n\n        std::time_t t = make_posix_time(fields[0], fields[1], fields[2], 0, 0, 0);\n        return to_datetime(t, value);")),
 K("k14-valid30", (D, '''            case 4:  // April
            case 6:  // June
            case 9:  // September
            case 11:  // November
                return day <= 30;

            case 2:  // February
                if (is_leap_year(year)) {
                    return day <= 29;
                } else {
                    return day <= 28;
                }
''', '''            case 2:  // February
                return day <= (is_leap_year(year) ? 29u : 28u);

            case 4:  // April
            case 6:  // June
            case 9:  // September
            case 11:  // November
                return day < 31;
''')),
]
