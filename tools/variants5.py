D = "base64.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c13", edits=list(e))
def B(id, *e): return dict(id=id, keep=False, checks="c13", edits=list(e))
ENC_LOOP = '''        for (std::size_t i = 0; i < remaining_triplets; ++i) {
            std::byte a = *p++;
            std::byte b = *p++;
            std::byte c = *p++;
            encode_triplet(a, b, c, r);
            r += 4;
        }
'''
DEC_LOOP = '''        for (std::size_t i = 1; i < quadruplets; ++i) {
            char a = *p++;
            char b = *p++;
            char c = *p++;
            char d = *p++;

            // process all but last quadruplet
            bool result = decode_quadruplet(a, b, c, d, r);
            if (!result) {
                return false;
            }

            r += 3;
        }
'''
VARIANTS = [
 B("b13-oob", (D, "input.size() >= 8 ? (input.size() - 2) / 6 : 0", "input.size() / 6")),
 B("b13-oob1", (D, "(input.size() - 2) / 6", "(input.size() - 1) / 6")),
 B("b13-mask", (D, "((value >> 12) & 0b00001111)]", "((value >> 12) & 0b00000111)]")),
 B("b13-mask2", (D, "((value >> 36) & 0b00001111)", "((value >> 36) & 0b00011111)")),
 B("b13-tbl", (D, "'4', '5', '6', '7', '8', '9', '+', '/'", "'4', '5', '6', '7', '8', '9', '-', '/'")),
 B("b13-dtbl", (D, "0xFF, 0x3E, 0xFF, 0xFF, 0xFF, 0x3F,", "0xFF, 0x3E, 0xFF, 0x3E, 0xFF, 0x3F,")),
 B("b13-pad1", (D, "            r += 3;\n            *r++ = '=';", "            r += 3;\n            *r++ = 'A';")),
 B("b13-back", (D, "std::byte a = input[input.size() - 2];\n            std::byte b = input[input.size() - 1];", "std::byte a = input[input.size() - 2];\n            std::byte b = input[input.size() - 2];")),
 B("b13-mod", (D, "if ((input.size() % 4) != 0) {", "if (input.size() > 4 && (input.size() % 2) != 0) {")),
 B("b13-loopskip", (D, "for (std::size_t i = 0; i < fast_sextets; ++i)", "for (std::size_t i = 0; i + 1 < fast_sextets + (fast_sextets < 9); ++i)")),
 B("b13-eqmid", (D, "        if (input[input.size() - 2] == '=') {\n            if (input[input.size() - 1] != '=') {\n                return false;\n            }\n", "        if (input[input.size() - 2] == '=') {\n")),
 B("b13-pop", (D, "            output.pop_back();\n            output.pop_back();", "            output.pop_back();")),
 B("b13-first", (D, "            bool result = decode_quadruplet(a, b, c, d, r);\n            if (!result) {\n                return false;\n            }\n\n            r += 3;", "            bool result = decode_quadruplet(a, b, c, d, r);\n            if (!result && i < 3) {\n                return false;\n            }\n\n            r += 3;")),
 B("b13-mask3", (D, "& 0b11000000) != 0", "& 0b10000000) != 0"), (D, "0xFF, 0x3E, 0xFF, 0xFF, 0xFF, 0x3F,", "0xFF, 0x3E, 0xFF, 0x7F, 0xFF, 0x3F,")),
 B("b13-and", (D, "((out_c & 0b00000011) << 6) | out_d", "((out_c & 0b00000011) << 6) + (out_d & 0x1f)")),
 B("b13-quad", (D, "std::size_t quadruplets = input.size() / 4;\n        output.resize(quadruplets * 3);", "std::size_t quadruplets = input.size() / 4;\n        output.resize(quadruplets * 3 + 1);")),
 B("b13-wlen", ("write_bytes.hpp", "str.size()", "(str.size() & 0xffff)")),
 B("b13-cstr", ("deserialize_bytes.hpp", "json.GetStringLength()", "std::strlen(json.GetString())"), ("deserialize_bytes.hpp", "#pragma once\n", "#pragma once\n#include <cstring>\n")),
 K("k13-idx", (D, ENC_LOOP, '''        for (std::size_t i = fast_sextets * 2; i < full_triplets; ++i) {
            const std::byte* t = input.data() + 3 * i;
            encode_triplet(t[0], t[1], t[2], output.data() + 4 * i);
            p = t + 3;
            r = output.data() + 4 * i + 4;
        }
''')),
 K("k13-while", (D, ENC_LOOP, '''        while (remaining_triplets-- > 0) {
            encode_triplet(p[0], p[1], p[2], r);
            p += 3;
            r += 4;
        }
''')),
 K("k13-nofast", (D, "input.size() >= 8 ? (input.size() - 2) / 6 : 0", "0")),
 K("k13-fill", (D, "output.resize(output_size);", "output.resize(output_size, '=');"), (D, "            r += 3;\n            *r++ = '=';\n        } else if", "            r[3] = '=';\n        } else if")),
 K("k13-decptr", (D, DEC_LOOP, '''        const char* last = input.data() + input.size() - 4;
        while (p != last) {
            if (!decode_quadruplet(p[0], p[1], p[2], p[3], r)) {
                return false;
            }
            p += 4;
            r += 3;
        }
''')),
 K("k13-decsub", (D, DEC_LOOP, '''        std::size_t i = 0;
        for (; i + 4 < input.size(); i += 4) {
            bool result = decode_quadruplet(input[i], input[i + 1], input[i + 2], input[i + 3], r + i / 4 * 3);
            if (!result) {
                return false;
            }
        }
        r += i / 4 * 3;
''')),
 K("k13-perchar", (D, "            PERSISTENCE_IF_UNLIKELY(((out_a | out_b | out_c | out_d) & 0b11000000) != 0) {\n                return false;\n            }\n", "            if (out_a > 63 || out_b > 63 || out_c > 63 || out_d > 63) {\n                return false;\n            }\n")),
 K("k13-resize", (D, "            output.pop_back();\n            output.pop_back();", "            output.resize(output.size() - 2);")),
 K("k13-clear", (D, "        output.clear();\n        if (input.size() == 0) {\n            return true;\n        }\n\n        if ((input.size() % 4)", "        output = byte_vector();\n        if (input.empty()) {\n            return true;\n        }\n\n        if ((input.size() % 4)")),
 K("k13-word", (D, '''            *out++ = std::byte((out_a << 2) | (out_b >> 4));
            *out++ = std::byte(((out_b & 0b00001111) << 4) | (out_c >> 2));
            *out++ = std::byte(((out_c & 0b00000011) << 6) | out_d);
''', '''            std::uint32_t word = (std::uint32_t(out_a) << 18) | (std::uint32_t(out_b) << 12) | (std::uint32_t(out_c) << 6) | out_d;
            out[0] = std::byte((word >> 16) & 0xff);
            out[1] = std::byte((word >> 8) & 0xff);
            out[2] = std::byte(word & 0xff);
''')),
 K("k13-pushback", (D, "        output.resize(output_size);\n", "        output.reserve(output_size);\n        output.resize(output_size);\n")),
 K("k13-helper", (D, '''        if (remaining_bytes == 2) {
            std::byte a = input[input.size() - 2];
            std::byte b = input[input.size() - 1];
            encode_triplet(a, b, std::byte{0x00}, r);
            r += 3;
            *r++ = '=';
        } else if (remaining_bytes == 1) {
            std::byte a = input.back();
            encode_triplet(a, std::byte{0x00}, std::byte{0x00}, r);
            r += 2;
            *r++ = '=';
            *r++ = '=';
        }
''', '''        if (remaining_bytes > 0) {
            std::byte tail[3] = {};
            for (std::size_t i = 0; i < remaining_bytes; ++i) {
                tail[i] = p[i];
            }
            encode_triplet(tail[0], tail[1], tail[2], r);
            for (std::size_t i = remaining_bytes + 1; i < 4; ++i) {
                r[i] = '=';
            }
        }
''')),
 K("k13-memcpy", (D, '''            std::byte a = input[input.size() - 2];
            std::byte b = input[input.size() - 1];
            encode_triplet(a, b, std::byte{0x00}, r);''', '''            std::byte tail[2];
            std::memcpy(tail, input.data() + input.size() - 2, 2);
            encode_triplet(tail[0], tail[1], std::byte{0x00}, r);''')),
 K("k13-range", (D, "            auto out_a = decode_table[static_cast<unsigned char>(in_a)];\n", "            auto lookup = [](char c) -> unsigned char {\n                unsigned char u = static_cast<unsigned char>(c);\n                return decode_table[u];\n            };\n            auto out_a = lookup(in_a);\n")),
 K("k13-ok", (D, "        if (input[input.size() - 2] == '=') {\n            if (input[input.size() - 1] != '=') {\n                return false;\n            }\n", "        const bool pad1 = input.back() == '=', pad2 = input[input.size() - 2] == '=';\n        if (pad2 && !pad1) {\n            return false;\n        }\n        if (pad2) {\n")),
]
