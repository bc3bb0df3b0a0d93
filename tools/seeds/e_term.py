
TERM = r"""
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sys/ioctl.h>
#include <cpp_utils/event/StdinEventHandler.hpp>
// not a terminal: 80 columns are assumed
extern "C" int ioctl(int, unsigned long, ...) noexcept
{
    return -1;
}
// a screen of 80 columns: what is written on it, executed
struct Screen
{
    std::vector<std::string> rows{""};
    size_t r = 0, c = 0, w = 80;
    bool full = false;
    void at(size_t i) { while (rows.size() <= i) rows.push_back(""); }
    void feed(const std::string& s)
    {
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] == 27)
            {
                std::string a;
                for (i += 2; i < s.size() && (s[i] < '@' || s[i] > '~'); ++i) a += s[i];
                size_t n = a.empty() ? 1 : (size_t)atoi(a.c_str());
                if (s[i] == 'm') continue;
                full = false;
                if (s[i] == 'A') r -= n < r ? n : r;
                if (s[i] == 'B') r = r + n < rows.size() ? r + n : rows.size() - 1;
                if (s[i] == 'C') c = c + n < w ? c + n : w - 1;
                if (s[i] == 'D') c -= n < c ? n : c;
                if (s[i] == 'K') { if (a == "2") rows[r] = ""; else rows[r].resize(c < rows[r].size() ? c : rows[r].size()); }
                if (s[i] == 'J') { rows[r].resize(c < rows[r].size() ? c : rows[r].size()); rows.resize(r + 1); }
                continue;
            }
            if (s[i] == '\n') { ++r; at(r); c = 0; full = false; continue; }
            if (s[i] == '\r') { c = 0; full = false; continue; }
            if (s[i] == '\b') { if (c) --c; full = false; continue; }
            if (full) { ++r; at(r); c = 0; full = false; }
            if (rows[r].size() <= c) rows[r].resize(c + 1, ' ');
            rows[r][c] = s[i];
            if (c + 1 == w) full = true;
            else ++c;
        }
    }
    std::string text() const
    {
        std::string t;
        for (auto x : rows)
        {
            while (!x.empty() && x.back() == ' ') x.pop_back();
            t += x + "\n";
        }
        while (t.size() > 1 && t[t.size() - 2] == '\n') t.pop_back();
        return t;
    }
};
// what is on the screen once the keys are typed (the input ends after them)
static Screen type(const std::string& keys)
{
    std::ostringstream out;
    auto* old = std::cout.rdbuf(out.rdbuf());
    std::cout << "above\n>> ";
    {
        std::istringstream in(keys);
        eprosima::utils::event::StdinEventHandler h([](std::string) {}, true, 1, in);
        while (in.good()) std::this_thread::sleep_for(std::chrono::milliseconds(10));
        std::this_thread::sleep_for(std::chrono::milliseconds(50));
    }
    std::cout.rdbuf(old);
    Screen s;
    s.feed(out.str());
    return s;
}
static int look(const std::string& keys, const std::string& want)
{
    Screen s = type(keys);
    if (s.text() == want) return 0;
    printf("on the screen:\n%s\ninstead of:\n%s\n", s.text().c_str(), want.c_str());
    return 1;
}
"""
SRC = EXC + ["event/StdinEventHandler.cpp", "history/*.cpp", "wait/*.cpp", "time/*.cpp", "utils.cpp"]

seed("stdin-left-backspace", "C51", [(S + "event/StdinEventHandler.cpp", """                        if (cursor_index > 0)
                        {
                            update_line(">> ", read_str, cursor_index,
                                    [](std::string&, size_t& index)
                                    {
                                        if (index > 0)
                                        {
                                            --index;
                                        }
                                    });
                        }
""", """                        if (cursor_index > 0)
                        {
                            --cursor_index;
                            std::cout << '\\b' << std::flush;
                        }
""")], TERM + r"""
int main()
{
    // left from the second row to the first one
    std::string row(77, 'a'), left;
    for (int i = 0; i < 4; ++i) left += "\033[D";
    Screen s = type(row + "bc" + left);
    if (s.r != 1 || s.c != 78 || s.full) { printf("the cursor is in row %zu column %zu\n", s.r, s.c); return 1; }
    return look(row + "bc" + left, "above\n>> " + row + "\nbc\n");
}
""", "the cursor going left from one row of the line to the one before", "the cursor stays in the lower row and rows above the line are erased with the next key", src=SRC, stub=True)

seed("stdin-old-cursor-row", "C51", [(S + "event/StdinEventHandler.cpp", """    int old_abs_cursor = static_cast<int>(prompt.size() + old_cursor_index);
    int old_cursor_line = old_abs_cursor / term_width;
    int lines_to_go_down""", """    int old_abs_cursor = static_cast<int>(prompt.size() + cursor_index);
    int old_cursor_line = old_abs_cursor / term_width;
    int lines_to_go_down""")], TERM + r"""
int main()
{
    // a character typed in the last column takes the cursor to the second row
    std::string row(77, 'a'), left;
    for (int i = 0; i < 3; ++i) left += "\033[D";
    return look(row + "bc" + left + "X", "above\n>> " + row.substr(0, 76) + "X\nabc\n");
}
""", "an insertion in the middle of a line that takes the cursor to another row", "rows above the line are erased or rows of it are left", src=SRC, stub=True)

seed("stdin-append-echo", "C51", [(S + "event/StdinEventHandler.cpp", """    // If the content does not change, only move the cursor
    if (line == old_line)
""", """    // Typing at the end of the line only needs to print what is new
    if (!old_line.empty() && old_cursor_index == old_line.size() && line.size() > old_line.size() &&
            line.compare(0, old_line.size(), old_line) == 0)
    {
        std::cout << line.substr(old_line.size()) << std::flush;
        return;
    }

    // If the content does not change, only move the cursor
    if (line == old_line)
""")], TERM + r"""
int main()
{
    // the line fills its row, and goes back to its beginning
    std::string row(77, 'a');
    return look(row + "\033[H" + "X", "above\n>> X" + row.substr(0, 76) + "\na\n");
}
""", "typing up to the last column of the terminal, then moving to another row", "the row above the line is erased", src=SRC, stub=True)
