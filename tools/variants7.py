P = "detail/polymorphic_stack.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c25", edits=list(e))
def B(id, *e): return dict(id=id, keep=False, checks="c25", edits=list(e))
GUARD = "count >= Capacity || (next - memory) >= static_cast<std::ptrdiff_t>(MemorySize - alignof(Class) - sizeof(Class))"
VARIANTS = [
 B("b25-cap", (P, "count >= Capacity ||", "count > Capacity ||")),
 B("b25-nocap", (P, "count >= Capacity ||", "")),
 B("b25-mem", (P, " - alignof(Class) - sizeof(Class))", ")")),
 B("b25-mem1", (P, " - alignof(Class) - sizeof(Class))", " - alignof(Class))")),
 B("b25-base", (P, " - alignof(Class) - sizeof(Class))", " - alignof(Class) - sizeof(Base))")),
 B("b25-early", (P, "                // ensure proper", "                ++count;\n                // ensure proper"), (P, "items[count] = current;\n                ++count;", "items[count - 1] = current;")),
 B("b25-next", (P, "next = current + sizeof(Class);", "next = current + sizeof(Base);")),
 B("b25-dtor1", (P, "while (count > 0) {", "while (count > 1) {")),
 B("b25-nodtor", (P, "                reinterpret_cast<Base*>(current)->~Base();\n", "                if (count != 0) reinterpret_cast<Base*>(current)->~Base();\n")),
 B("b25-order", (P, "                --count;\n                reinterpret_cast<Base*>(current)->~Base();\n                next = current;\n                current = items[count];", "                next = current;\n                current = items[--count];\n                if (current) reinterpret_cast<Base*>(current)->~Base();")),
 B("b25-noreset", (P, "                next = current;\n                current = items[count];", "                current = items[count];\n                next = current != nullptr ? current : memory;")),
 B("b25-leak", (P, "                next = current;\n", "")),
 B("b25-empty", (P, "PERSISTENCE_IF_UNLIKELY(count == 0) {", "PERSISTENCE_IF_UNLIKELY(current == next) {")),
 K("k25-tight", (P, " - alignof(Class) - sizeof(Class))", " - sizeof(Class))")),
 K("k25-split", (P, "PERSISTENCE_IF_UNLIKELY(" + GUARD + ") {\n", "if (count >= Capacity) {\n                    throw std::out_of_range(\"stack space exhausted\");\n                }\n                const auto used = static_cast<std::size_t>(next - memory);\n                if (used + sizeof(Class) + alignof(Class) >= MemorySize) {\n")),
 K("k25-le", (P, "(next - memory) >= static_cast<std::ptrdiff_t>(MemorySize - alignof(Class) - sizeof(Class))", "!(memory + MemorySize - next > static_cast<std::ptrdiff_t>(sizeof(Class) + alignof(Class)))")),
 K("k25-for", (P, "                while (count > 0) {\n                    pop_unsafe();\n                }", "                for (; count != 0;) {\n                    pop_unsafe();\n                }")),
 K("k25-local", (P, "                --count;\n                reinterpret_cast<Base*>(current)->~Base();\n                next = current;\n                current = items[count];\n                items[count] = nullptr;", "                Base* top = &back();\n                top->~Base();\n                next = current;\n                current = items[count - 1];\n                items[count - 1] = nullptr;\n                --count;")),
 K("k25-noclear", (P, "                items[count] = nullptr;\n", "")),
 K("k25-helper", (P, "            Base& back()\n", "            bool fits(std::size_t size, std::size_t align) const\n            {\n                return count < Capacity && (next - memory) < static_cast<std::ptrdiff_t>(MemorySize - align - size);\n            }\n\n            Base& back()\n"), (P, "PERSISTENCE_IF_UNLIKELY(" + GUARD + ") {", "if (!fits(sizeof(Class), alignof(Class))) {")),
 K("k25-objptr", (P, "std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));", "Class* made = new (next) Class(std::forward<T>(args)...);\n                std::byte* object = reinterpret_cast<std::byte*>(made);")),
 K("k25-array", (P, "std::byte memory[MemorySize];", "alignas(std::max_align_t) std::byte memory[MemorySize];")),
 K("k25-index", (P, "std::byte* next = memory;", "std::size_t used = 0;"), (P, "(next - memory) >= static_cast<std::ptrdiff_t>(MemorySize", "static_cast<std::ptrdiff_t>(used) >= static_cast<std::ptrdiff_t>(MemorySize"), (P, "new (next) Class", "new (memory + used) Class"), (P, "next = current + sizeof(Class);", "used += sizeof(Class);"), (P, "next = current;\n", "used = static_cast<std::size_t>(current - memory);\n")),
 K("k25-try", (P, "                // ensure proper", "                items[count] = current;\n                // ensure proper"), (P, "                items[count] = current;\n                ++count;", "                ++count;")),
]
