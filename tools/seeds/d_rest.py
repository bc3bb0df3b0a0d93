seed("dbqueue-swap-empty", "C11", [(I + "queue/DBQueue.hpp", """        // Clear the foreground queue.
        std::queue<T>().swap(*m_foreground_queue);

        auto* swap       = m_background_queue;
""", """        // Clear the foreground queue only if there is something to put in its place.
        if (m_background_queue->empty())
        {
            return;
        }
        std::queue<T>().swap(*m_foreground_queue);

        auto* swap       = m_background_queue;
""")], r"""
#include <cstdio>
#include <cpp_utils/queue/DBQueue.hpp>
using eprosima::utils::event::DBQueue;
int main()
{
    DBQueue<int> q;
    q.push(1);
    q.push(2);
    q.swap();
    q.pop();
    q.swap();
    if (!q.empty() || !q.both_empty() || q.size()) { puts("an element is left in the foreground"); return 1; }
    return 0;
}
""", "swapping with elements left in the foreground and none in the background", "the foreground is not cleared", src=EXC)

seed("dbqueue-both-empty-gap", "C11", [(I + "queue/DBQueue.hpp", """        std::unique_lock<std::mutex> guard(m_foreground_mutex);
        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        return m_foreground_queue->empty() && m_background_queue->empty();
""", """        if (!empty())
        {
            return false;
        }

        std::unique_lock<std::mutex> bg_guard(m_background_mutex);
        return m_background_queue->empty();
""")], r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <cpp_utils/queue/DBQueue.hpp>
using eprosima::utils::event::DBQueue;
int main()
{
    // an element is always on one of both sides
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
    DBQueue<int> q;
    q.push(1);
    std::atomic<bool> stop{false}, bad{false};
    std::thread t([&]
    {
        while (!stop)
        {
            q.swap();        // to the foreground
            q.push(1);
            q.pop();         // only the one in the background is left
        }
    });
    std::thread u[3];
    for (auto& x : u) x = std::thread([&] { while (!stop) if (q.both_empty()) bad = true; });
    while (!bad && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    stop = true;
    t.join();
    for (auto& x : u) x.join();
    if (bad) { puts("both sides are said to be empty, and never were"); return 1; }
    return 0;
}
""", "a swap between the two looks at the sides", "both sides are said to be empty when they never were at the same time", src=EXC)

seed("filewatch-pending-replaced", "C20", [("thirdparty/filewatch/FileWatch.hpp", """                            else if (event->mask & IN_MODIFY)
                            {
                                parsed_information.emplace_back(T{ changed_file }, Event::modified);
                            }
                        }
                    }
                    i += event_size + event->len;
                }
                //dispatch callbacks
                {
                    std::lock_guard<std::mutex> lock(_callback_mutex);
                    _callback_information.insert(_callback_information.end(),
                            parsed_information.begin(), parsed_information.end());
                }
""", """                            else if (event->mask & IN_MODIFY)
                            {
                                parsed_information.emplace_back(T{ changed_file }, Event::modified);
                            }
                        }
                    }
                    i += event_size + event->len;
                }
                //dispatch callbacks
                {
                    std::lock_guard<std::mutex> lock(_callback_mutex);
                    _callback_information = std::move(parsed_information);
                }
""")], r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    mkdir("watched", 0755);
    { std::ofstream("watched/first"); std::ofstream("watched/a"); }
    std::mutex m;
    std::set<std::string> seen;
    {
        FileWatcherHandler h([&](std::string f)
        {
            { std::lock_guard<std::mutex> _(m); seen.insert(f); }
            if (f == "first") std::this_thread::sleep_for(std::chrono::milliseconds(600));
        }, "watched");
        usleep(100000);
        { std::ofstream("watched/first") << "x"; }
        usleep(200000);      // its callback is running
        { std::ofstream("watched/a") << "x"; }
        usleep(200000);
        { std::ofstream("watched/b"); }
        usleep(1500000);
    }
    if (!seen.count("first") || !seen.count("a")) { puts("a modification was not told"); return 1; }
    return 0;
}
""", "a directory watched, a file modified during a slow callback and another one created before it ends", "the modification is never told", src=EXC + ["utils.cpp", "event/FileWatcherHandler.cpp"])

seed("filewatch-name-prefix", "C20", [("thirdparty/filewatch/FileWatch.hpp", """            return extracted_filename == _filename;
""", """            return extracted_filename.compare(0, _filename.size(), _filename) == 0;
""")], r"""
#include <atomic>
#include <cstdio>
#include <fstream>
#include <string>
#include <unistd.h>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    { std::ofstream("file"); std::ofstream("file.swp"); }
    std::atomic<int> own{0}, other{0};
    {
        FileWatcherHandler h([&](std::string f) { (f == "file" ? own : other)++; }, "./file");
        usleep(100000);
        { std::ofstream("file.swp") << "x"; }
        usleep(300000);
        { std::ofstream("file") << "x"; }
        usleep(700000);
    }
    if (!own) { puts("the modification was not told"); return 1; }
    if (other) { puts("a modification of another file was told"); return 1; }
    return 0;
}
""", "another file of the same folder, whose name starts as that of the one watched, being modified", "the callback is called for it", src=EXC + ["utils.cpp", "event/FileWatcherHandler.cpp"])

PYDEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/py_utils
timeout 60 python3 "$here/demo.py"
"""

seed("py-increase-notify-some", "C44", [("py_utils/py_utils/wait/IntWaitHandler.py", """            self._value += value
            self._condition.notify_all()
""", """            self._value += value
            # Awake one thread for each unit added
            self._condition.notify(max(value, 1))
""")], "", "two threads waiting for different values when the value is increased by one", "the one whose condition is met is not awaken", stub=False, sh=PYDEMO, files={"demo.py": '''
import os, threading, time
from py_utils.wait.IntWaitHandler import IntWaitHandler
h = IntWaitHandler(True)
got = []
a = threading.Thread(target=lambda: h.wait_greater_equal(5), daemon=True)
b = threading.Thread(target=lambda: got.append(h.wait_greater_equal(1)), daemon=True)
a.start()
time.sleep(0.3)
b.start()
time.sleep(0.3)
h.increase(1)
b.join(5)
if not got:
    print("the thread was not awaken")
    os._exit(1)
os._exit(0)
'''})

seed("py-wait-reason-order", "C44", [("py_utils/py_utils/wait/WaitHandler.py", """            if not self._enabled:
                return AwakeReason.disabled
            elif not awaken_reason:
                return AwakeReason.timeout
            else:
                return AwakeReason.condition_met
""", """            if not awaken_reason:
                return AwakeReason.timeout
            elif predicate(self._value):
                return AwakeReason.condition_met
            else:
                return AwakeReason.disabled
""")], "", "a condition that is met in a handler that is disabled", "condition_met is returned, although disabled has priority", stub=False, sh=PYDEMO, files={"demo.py": '''
import sys
from py_utils.wait.WaitHandler import AwakeReason
from py_utils.wait.IntWaitHandler import IntWaitHandler
h = IntWaitHandler(True, 3)
if h.wait_equal(3) != AwakeReason.condition_met or h.wait_equal(4, 0.05) != AwakeReason.timeout: sys.exit(1)
h.disable()
if h.wait_equal(4) != AwakeReason.disabled: sys.exit(1)
r = h.wait_equal(3)
print(r)
sys.exit(r != AwakeReason.disabled)
'''})

seed("py-debug-result-logged", "C45", [("py_utils/py_utils/debugging/debug_utils.py", """        result = func(*args, **kwargs)
        logger.debug(f'Function <{func.__name__}> finished')
        return result
""", """        result = func(*args, **kwargs) or None
        logger.debug(f'Function <{func.__name__}> finished' + (' with a result' if result else ''))
        return result
""")], "", "a decorated function that returns a value that is false, as 0 or an empty list", "it returns None", stub=False, sh=PYDEMO, files={"demo.py": '''
import sys
from py_utils.debugging.debug_utils import debug_function_decorator
f = debug_function_decorator(lambda x: x)
for v in (1, "a", None, [1]):
    if f(v) is not v: sys.exit(1)
for v in (0, "", [], {}, False):
    if f(v) is not v:
        print("it returns", f(v), "instead of", v)
        sys.exit(1)
'''})

CMDEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/CMakeLists.txt "$here"/project_settings.cmake "$here"/VERSION.txt "$tmp/"
cd "$tmp" && cmake -S . -B build %s >out 2>&1
r=$?
grep -a "^-- RESULT\\|WRONG" out
exit $r
"""

seed("optparse-terminator-order", "C49", [("thirdparty/optionparser/optionparser.h", """        if (param[1] == '-' && param[2] == 0)
        {
            shift(args, nonops);
            ++args;
""", """        if (param[1] == '-' && param[2] == 0)
        {
            if (!gnu)
            {
                shift(args, nonops);
            }
            ++args;
""")], r"""
#include <cstdio>
#include <cstring>
#include <optionparser.h>
const option::Descriptor usage[] = {{0, 0, "", "", option::Arg::None, ""}, {1, 0, "v", "verbose", option::Arg::None, ""}, {0, 0, 0, 0, 0, 0}};
int main()
{
    const char* args[] = {"a", "-v", "b", "--", "-c", 0};
    option::Option options[3], buffer[8];
    option::Parser p(true, usage, 5, args, options, buffer);
    if (p.error() || !options[1] || p.nonOptionsCount() != 3) { printf("%d\n", p.nonOptionsCount()); return 1; }
    const char* want[] = {"a", "b", "-c"};
    for (int i = 0; i < 3; ++i) if (strcmp(p.nonOption(i), want[i])) { printf("argument %d is %s\n", i, p.nonOption(i)); return 1; }
    return 0;
}
""", "arguments that are no options on both sides of --", "the argument list is wrong", src=[], stub=True)

seed("optparse-wide-range", "C49", [("thirdparty/optionparser/optionparser.h", """(0xFE10 <= ch && ch <= 0xFE6B) || (0xFF01 <= ch && ch <= 0xFF60)""", """(0xFE10 <= ch && ch <= 0xFF60)""")], r"""
#include <cstdio>
#include <string>
#include <optionparser.h>
std::string out;
void print(const char* s, int n) { out.append(s, n); }
int main()
{
    // U+FEB0 is an Arabic presentation form: one column
    const option::Descriptor usage[] = {{0, 0, "", "", option::Arg::None, "\xEF\xBA\xB0\xEF\xBA\xB0\tx\n" "abcd\ty"}, {0, 0, 0, 0, 0, 0}};
    option::printUsage(print, usage, 80);
    if (out != "\xEF\xBA\xB0\xEF\xBA\xB0  x\nabcdy\n" && out != "\xEF\xBA\xB0\xEF\xBA\xB0  x\nabcd y\n") { printf("%s", out.c_str()); return 1; }
    return 0;
}
""", "help texts with Arabic presentation forms", "their columns are not aligned", src=[], stub=True)
