UNITS = r"""#!/bin/bash
# exit 0: the property holds; otherwise it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
inc="-I$here -I$here/stubs -I/repo/cpp_utils/include"
cd /repo/cpp_utils/src/cpp || exit 2
for f in a b; do
  g++ -std=c++17 -O2 -w -pthread $inc -c "$here/$f.cpp" -o "$tmp/$f.o" || { echo "unit $f does not compile"; exit 1; }
done
g++ -std=c++17 -O1 -w -pthread $inc "$tmp/a.o" "$tmp/b.o" exception/*.cpp Formatter.cpp -o "$tmp/demo" || { echo "the units do not link"; exit 1; }
timeout 60 "$tmp/demo"
"""


def units(id, edits, needs, breaks, files, prop="C53"):
    seed(id, prop, edits, None, needs, breaks, sh=UNITS, files=files)


units("hdr-enum-not-inline", [(I + "macros/custom_enumeration.hpp", """    inline const std::string& to_string(const enumeration_name& e)                                                  \\
""", """    const std::string& to_string(const enumeration_name& e)                                                         \\
""")], "an enumeration declared in a header that two units include", "the program does not link", {
    "colour.hpp": "#pragma once\n#include <cpp_utils/macros/custom_enumeration.hpp>\nENUMERATION_BUILDER(Colour, red, blue);\n",
    "a.cpp": '#include "colour.hpp"\nstd::string other();\nint main() { return to_string(Colour::blue) == "blue" && other() == "red" ? 0 : 1; }\n',
    "b.cpp": '#include "colour.hpp"\nstd::string other() { return to_string(Colour::red); }\n'})

units("hdr-singleton-per-unit", [(I + "types/impl/Singleton.ipp", """namespace eprosima {
namespace utils {

template <typename T, int Index>
T* Singleton""", """namespace eprosima {
namespace utils {

namespace {

// Holder of the instance of each singleton
template <typename T, int Index>
std::shared_ptr<T>& singleton_instance() noexcept
{
    static std::shared_ptr<T> instance(new T());
    return instance;
}

} // namespace

template <typename T, int Index>
T* Singleton"""), (I + "types/impl/Singleton.ipp", """    static std::shared_ptr<T> instance_(new T());
    return instance_;
""", """    return singleton_instance<T, Index>();
""")], "a singleton used from two units of a program, whose accessors are inlined", "each unit has an instance of its own", {
    "thing.hpp": "#pragma once\n#include <cpp_utils/types/Singleton.hpp>\nstruct Thing { int x = 0; };\nusing Things = eprosima::utils::Singleton<Thing>;\n",
    "a.cpp": '#include "thing.hpp"\nvoid other();\nint main() { other(); return Things::get_instance()->x == 7 ? 0 : 1; }\n',
    "b.cpp": '#include "thing.hpp"\nvoid other() { Things::get_instance()->x = 7; }\n'})

units("hdr-builder-set", [(I + "types/Builder.hpp", """#include <map>
#include <set>
""", """#include <map>
""")], "including types/Builder.hpp before any header that includes <set>", "the unit does not compile", {
    "a.cpp": '#include <cpp_utils/types/Builder.hpp>\nint other();\nint main() { return other() == 4 ? 0 : 1; }\n',
    "b.cpp": '#include <cpp_utils/types/Builder.hpp>\n#include <string>\nint other() { eprosima::utils::Builder<std::string, int> b(std::map<std::string, int>{{"a", 4}}); int v = 0; b.find("a", v); return v; }\n'})
