// C37 line editor, C38 command history, C39 command reader
#include "vx.h"
#include "vx_io.h"
#include "vx_posix.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <cpp_utils/history/CommandHistoryHandler.hpp>
#include <cpp_utils/user_interface/CommandReader.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;

// ------------------------------------------------------------------ C38: the history as a list and a position
struct RefHistory
{
    std::vector<std::string> all;
    size_t pos = 0;
    void add(const std::string& c) { if (c.size()) { all.push_back(c); pos = all.size(); } }
    std::string prev() { return pos == 0 ? std::string() : all[--pos]; }
    std::string next() { if (pos < all.size()) pos++; return pos < all.size() ? all[pos] : std::string(); }
};
extern "C" void c38_moves()
{
    int n = (int)vx_arg(0), len = (int)vx_arg(1);
    history::CommandHistoryHandler h;
    RefHistory r;
    for (int i = 0; i < n; i++)
    {
        switch (vx_choose("operation", 3))
        {
            case 0:
            {
                std::string c = vx_sym_string("command", 0, len);
                h.add_command(c);
                r.add(c);
                if (c.empty()) vx_cover("empty");
                break;
            }
            case 1:
            {
                bool oldest = r.pos == 0;
                std::string got = h.get_previous_command();
                vx_assert(got == r.prev(), "the previous move returns the next older command, or nothing at the oldest");
                if (oldest && r.all.size()) vx_cover("oldest");
                break;
            }
            default:
            {
                std::string got = h.get_next_command();
                vx_assert(got == r.next(), "the next move returns the next newer command, or nothing after the newest");
                if (r.all.size() && r.pos == r.all.size()) vx_cover("newest");
            }
        }
    }
    vx_cover("moves");
}

// many commands: back to the oldest and forth to the newest, with any move in between
extern "C" void c38_much()
{
    int n = (int)vx_arg(0);
    history::CommandHistoryHandler h;
    RefHistory r;
    auto word = [](int i) { return std::string(1 + i % 40, (char)('a' + i % 26)); };
    for (int i = 0; i < n; i++) { h.add_command(word(i / 2)); r.add(word(i / 2)); } // every command twice
    int back = (int)vx_choose("back", 4) * (n + 2) / 3;
    for (int i = 0; i < back; i++) vx_assert(h.get_previous_command() == r.prev(), "the previous move returns the next older command, or nothing at the oldest");
    int forth = (int)vx_choose("forth", 4) * (n + 2) / 3;
    for (int i = 0; i < forth; i++) vx_assert(h.get_next_command() == r.next(), "the next move returns the next newer command, or nothing after the newest");
    std::string c = vx_sym_string("command", 0, 2);
    h.add_command(c);
    r.add(c);
    vx_assert(h.get_previous_command() == r.prev() && h.get_previous_command() == r.prev() && h.get_next_command() == r.next(), "moves after a new command");
    vx_cover("much");
}
// ------------------------------------------------------------------ C37: keys are chosen as the code reads them
namespace {
struct Editor
{
    std::string line, pending, tail;   // pending: bytes of the current key not read yet; tail: typed before the input ends
    size_t cur = 0, at = 0;
    RefHistory hist;
    std::vector<std::string> expected;
    bool ignoring = false, ended = false;
    int keys = 0, group = 0;
    StdinEventHandler* handler = nullptr;
    std::atomic<int> allowed{0};
    int reads_after_end = 0;
    void take(const std::string& s) { line = s; cur = s.size(); }
    void finish(const std::string& s, bool remember)
    {
        expected.push_back(s);
        if (remember && !ignoring) hist.add(s);
        line.clear(); cur = 0;
    }
    void type(char c) { line.insert(line.begin() + cur, c); cur++; pending = std::string(1, c); }
    void esc(const char* k) { pending = std::string("\033[") + k; }
    void up(const char* k) { std::string p = hist.prev(); if (p.size()) take(p); esc(k); }
    void down(const char* k) { take(hist.next()); esc(k); }
    void edit_key(unsigned k)
    {
        switch (k)
        {
            case 0:
            {
                char c = vx_sym<char>("character");
                vx_assume((c != '\033') & (c != '\n') & (c != '\r') & (c != '\b') & (c != 127) & (c != 3));
                type(c);
                break;
            }
            case 1: if (cur > 0) cur--; esc("D"); vx_cover("left"); break;
            case 2: if (cur < line.size()) cur++; esc("C"); vx_cover("right"); break;
            case 3: if (cur > 0) { line.erase(cur - 1, 1); cur--; vx_cover("backspace"); } pending = "\x7f"; break;
            case 4: if (cur < line.size()) { line.erase(cur, 1); vx_cover("delete"); } esc("3~"); break;
            case 5: cur = 0; esc("H"); vx_cover("home"); break;
            default: cur = line.size(); esc("F"); vx_cover("end");
        }
    }
    void line_key(unsigned k)
    {
        switch (k)
        {
            case 0: { char c = vx_sym<char>("character"); vx_assume((c >= 'a') & (c <= 'z')); type(c); break; }
            case 1: pending = "\n"; finish(line, true); break;
            case 2: up("A"); vx_cover("up"); break;
            case 3: down("B"); vx_cover("down"); break;
            default: if (cur > 0) { line.erase(cur - 1, 1); cur--; } pending = "\b";
        }
    }
    void other_key(unsigned k)
    {
        switch (k)
        {
            case 0: { char c = vx_sym<char>("character"); vx_assume((c >= 'a') & (c <= 'z')); type(c); break; }
            case 1: pending = "\r"; finish(line, true); break;
            case 2: up("5~"); vx_cover("pageup"); break;
            case 3: down("6~"); vx_cover("pagedown"); break;
            case 4: esc("2~"); break;
            case 5: pending = "\x03"; finish("", false); vx_cover("cancel"); break;
            case 6: esc("Z"); break;
            case 7: if (cur > 0) cur--; esc("D"); break;
            default: ignoring = !ignoring; handler->set_ignore_input(ignoring); type('i'); vx_cover("ignoring");
        }
    }
    // keys with a byte that does not belong to them do nothing
    void broken_key(unsigned k)
    {
        switch (k)
        {
            case 0: { char c = vx_sym<char>("character"); vx_assume((c >= 'a') & (c <= 'z')); type(c); break; }
            case 1: if (cur > 0) cur--; esc("D"); break;
            case 2: if (cur < line.size()) line.erase(cur, 1); esc("3~"); break;
            case 3: pending = "\n"; finish(line, true); break;
            default:
            {
                char c = vx_sym<char>("character");
                vx_assume((c >= ' ') & (c < 127) & (c != '~'));
                esc(k == 4 ? "3" : k == 5 ? "5" : "6");
                pending += c;
                vx_cover("broken");
            }
        }
    }
    // any move or edit within a line that may come from the history
    void moving_key(unsigned k)
    {
        switch (k)
        {
            case 0: type('+'); break;
            case 1: up("A"); vx_cover("up"); break;
            case 2: down("B"); vx_cover("down"); break;
            case 3: up("5~"); vx_cover("pageup"); break;
            case 4: down("6~"); vx_cover("pagedown"); break;
            default: edit_key(k - 4); // cursor moves and deletions
        }
    }
    int read()
    {
        if (at < pending.size()) return (unsigned char)pending[at++];
        vx_assert((int)expected.size() < allowed.load(), "the input is read only as often as it was asked for");
        at = 0; pending.clear();
        if (keys == 0 && tail.size())
        {
            char c = tail[0];
            tail.erase(0, 1);
            type(c);
            return (unsigned char)pending[at++];
        }
        if (keys == 0)
        {
            if (expected.size() && !line.size()) vx_cover("end_of_input");
            finish(line, true);
            return -1;
        }
        keys--;
        if (group == 0) edit_key((unsigned)vx_choose("key", 7));
        else if (group == 1) line_key((unsigned)vx_choose("key", 5));
        else if (group == 2) other_key((unsigned)vx_choose("key", 9));
        else if (group == 4) moving_key((unsigned)vx_choose("key", 11));
        else broken_key((unsigned)vx_choose("key", 7));
        return (unsigned char)pending[at++];
    }
};
Editor* g_ed;
int ed_hook() { return g_ed->read(); }
}
// arg0 = keys, arg1 = which keys, arg2 = lines asked for, arg3 = columns of the terminal plus one
extern "C" void c37_edit()
{
    Editor e;
    g_ed = &e;
    e.keys = (int)vx_arg(0); e.group = (int)vx_arg(1);
    int lines = (int)vx_arg(2);
    vxrt::term_cols = (int)vx_arg(3) - 1;
    vxrt::in_hook = ed_hook;
    std::vector<std::string> got;
    std::mutex m;
    {
        StdinEventHandler h([&](std::string s) { std::lock_guard<std::mutex> l(m); got.push_back(s); }, true, 0);
        e.handler = &h;
        for (int i = 0; i < lines; i++) { e.allowed++; h.read_one_more_line(); }
        vx_assert(h.wait_for_event(lines), "every line asked for is delivered");
    }
    vx_assert(got.size() == (size_t)lines, "each line is delivered exactly once");
    vx_assert(e.expected.size() == (size_t)lines, "no more lines are read than asked for");
    for (int i = 0; i < lines; i++) vx_assert(got[i] == e.expected[i], "the line delivered is the edited one");
    vx_assert(vxrt::term_raw == 0, "the terminal mode is restored");
    vx_cover("edit");
}
// two lines (one begins with any character) are remembered, then a third one is edited with cursor and history moves. arg0 = keys, arg1 = columns plus one
static std::string g_first;
static int third_hook()
{
    if (g_first.empty()) return g_ed->read();
    char c = g_first[0];
    g_first.erase(0, 1);
    if (c == '\n') g_ed->finish(g_ed->line, true);
    else { g_ed->type(c); g_ed->pending.clear(); }
    return (unsigned char)c;
}
extern "C" void c37_history()
{
    Editor e;
    g_ed = &e;
    char any = vx_sym<char>("character");
    vx_assume((any != '\033') & (any != '\n') & (any != '\r') & (any != '\b') & (any != 127) & (any != 3));
    g_first = std::string("abcde\n") + any + "\nw";
    e.keys = (int)vx_arg(0); e.group = 4; e.tail = "!";
    e.allowed = 3;
    vxrt::term_cols = (int)vx_arg(1) - 1;
    vxrt::in_hook = third_hook;
    std::vector<std::string> got;
    {
        StdinEventHandler h([&](std::string s) { got.push_back(s); }, true, 3);
        vx_assert(h.wait_for_event(3), "every line asked for is delivered");
    }
    vx_assert(got.size() == 3 && got == e.expected, "the line delivered is the edited one");
    vx_assert(vxrt::term_raw == 0, "the terminal mode is restored");
    vx_cover("history");
}
// lines are asked for while the reader runs: each request reads one line, destruction returns. arg0 = requests, arg1 = asked for from the start
static int plain_hook()
{
    vx_assert((int)g_ed->expected.size() < g_ed->allowed.load(), "the input is read only as often as it was asked for");
    if (g_ed->keys++ & 1) { g_ed->finish(g_ed->line, false); return '\n'; }
    g_ed->line = std::string(1, (char)('a' + g_ed->keys));
    return g_ed->line[0];
}
extern "C" void c37_requests()
{
    Editor e;
    g_ed = &e;
    vxrt::in_hook = plain_hook;
    int n = (int)vx_arg(0), first = (int)vx_arg(1), mode = (int)vx_arg(2);
    std::vector<std::string> got;
    std::mutex m;
    e.allowed = first;
    {
        StdinEventHandler h([&](std::string s) { std::lock_guard<std::mutex> l(m); got.push_back(s); }, true, first);
        for (int i = 0; i < n; i++)
        {
            e.allowed++;
            h.read_one_more_line();
            if (mode == 1) vx_assert(h.wait_for_event((uint32_t)(first + i + 1)), "every line asked for is delivered");
        }
        if (mode == 0) vx_assert(h.wait_for_event((uint32_t)(first + n)), "every line asked for is delivered");
    }
    if (mode < 2) vx_assert(got.size() == (size_t)(n + first), "one line is delivered for each request");
    vx_assert(got.size() <= (size_t)(n + first), "at most one line is delivered for each request");
    if (mode == 2 && got.size() < (size_t)(n + first)) vx_cover("unread");
    for (size_t i = 0; i < got.size(); i++) vx_assert(got[i] == e.expected[i], "lines are delivered in order");
    vx_assert(vxrt::term_raw == 0, "the terminal mode is restored");
    vx_cover("requests");
}

// ------------------------------------------------------------------ C39
namespace {
enum class Cmd { one = 1, two = 2 };
std::string g_text;
size_t g_pos;
int text_hook() { return g_pos < g_text.size() ? (unsigned char)g_text[g_pos++] : -1; }
std::vector<std::string> words_of(const std::string& s)
{
    std::vector<std::string> r;
    size_t n = s.size(), p = 0;
    for (;;)
    {
        size_t end;
        if (p < n && s[p] == '"')
        {
            end = p + 1;
            while (end < n && !(s[end] == '"' && (end + 1 == n || s[end + 1] == ' '))) end++;
            r.push_back(s.substr(p + 1, end - p - 1));
            if (end < n) end++; // the closing quote
        }
        else
        {
            end = p;
            while (end < n && s[end] != ' ') end++;
            r.push_back(s.substr(p, end - p));
        }
        if (end >= n) break;
        p = end + 1;
    }
    return r;
}
EnumBuilder<Cmd> builder()
{
    return EnumBuilder<Cmd>({{Cmd::one, {"a", "o b"}}, {Cmd::two, {"ab"}}});
}
void read_and_check(CommandReader<Cmd>& r, const std::string& line)
{
    Command<Cmd> c;
    c.command = (Cmd)77;
    c.arguments.push_back("left over");
    bool known = r.read_next_command(c);
    std::vector<std::string> w = words_of(line);
    vx_assert(c.arguments == w, "the words of the line, in order");
    int want = (w[0] == "a" || w[0] == "o b") ? 1 : w[0] == "ab" ? 2 : 77;
    vx_assert(known == (want != 77), "a word that is no command is reported as unknown");
    vx_assert((int)c.command == want, "the first word selects its command");
    vx_cover(known ? "known" : "unknown");
    if (w.size() > 1) vx_cover("several");
    for (auto& x : w) if (x.find(' ') != std::string::npos) vx_cover("quoted");
}
}
// arg0 = length of the line, arg1 = alphabet
extern "C" void c39_line()
{
    size_t n = vx_arg(0);
    std::string line = vx_sym_string("line", 0, n);
    if (vx_arg(1) == 0) vx_chars_in(line, "a \"");
    else for (char c : line) vx_assume((c != '\033') & (c != '\n') & (c != '\r') & (c != '\b') & (c != 127) & (c != 3));
    g_text = line + "\n"; g_pos = 0;
    vxrt::in_hook = text_hook;
    CommandReader<Cmd> r(builder());
    read_and_check(r, line);
    vx_cover("line");
}
// several commands one after another, then the reader is destroyed at once
extern "C" void c39_sequence()
{
    static const char* lines[] = {"a b", "\"o b\" \" x\"", "", "ab", "b a"};
    int n = (int)vx_arg(0);
    std::string l[4];
    for (int i = 0; i < n; i++) { l[i] = lines[vx_choose("line", 5)]; g_text += l[i] + "\n"; }
    vxrt::in_hook = text_hook;
    std::unique_ptr<CommandReader<Cmd>> r(new CommandReader<Cmd>(builder()));
    for (int i = 0; i < n; i++) read_and_check(*r, l[i]);
    r.reset();
    vx_cover("sequence");
}
extern "C" void c39_destroy()
{
    g_text = "a\nb\n";
    vxrt::in_hook = text_hook;
    std::unique_ptr<CommandReader<Cmd>> r(new CommandReader<Cmd>(builder()));
    read_and_check(*r, "a");
    if (vx_arg(0)) r->stdin_handler().read_one_more_line(); // a line nobody reads
    r.reset();
    vx_cover("destroy");
}
// a long line of many words, with any two characters of three kinds anywhere
extern "C" void c39_much()
{
    size_t n = vx_arg(0);
    std::string line, any = vx_sym_string("characters", 2, 2);
    vx_chars_in(any, "a \"");
    for (size_t i = 0; i < n; i++) line += "ab a \"b a\" aab "[i % 15];
    size_t at = vx_choose("position", 8) * (n - 2) / 7;
    line[at] = any[0];
    line[at + 1] = any[1];
    g_text = line + "\n"; g_pos = 0;
    vxrt::in_hook = text_hook;
    CommandReader<Cmd> r(builder());
    read_and_check(r, line);
    vx_cover("much");
}
// a line longer than the terminal is typed, then edited in places. arg0 = characters, arg1 = columns of the terminal plus one
static std::string g_keys;
static int keys_hook() { return g_pos < g_keys.size() ? (unsigned char)g_keys[g_pos++] : -1; }
extern "C" void c37_much()
{
    size_t n = vx_arg(0), cur;
    vxrt::term_cols = (int)vx_arg(1) - 1;
    std::string line;
    for (size_t i = 0; i < n; i++) line += (char)('a' + i % 26);
    g_keys = line;
    cur = n;
    auto left = [&](size_t k) { while (k--) { g_keys += "\033[D"; if (cur) cur--; } };
    auto right = [&](size_t k) { while (k--) { g_keys += "\033[C"; if (cur < line.size()) cur++; } };
    auto edit = [&]
            {
                switch (vx_choose("edit", 4))
                {
                    case 0: { char c = vx_sym<char>("character"); vx_assume((c >= ' ') & (c < 127)); g_keys += c; line.insert(line.begin() + cur, c); cur++; break; }
                    case 1: g_keys += "\x7f"; if (cur) { line.erase(cur - 1, 1); cur--; } break;
                    case 2: g_keys += "\033[3~"; if (cur < line.size()) line.erase(cur, 1); break;
                    default: break;
                }
            };
    left(vx_choose("left", 4) * (n + 1) / 3);
    edit();
    if (vx_choose("home", 2)) { g_keys += "\033[H"; cur = 0; } else right(n / 2);
    edit();
    g_keys += "\033[F"; cur = line.size();
    edit();
    g_keys += "\n";
    g_pos = 0;
    vxrt::in_hook = keys_hook;
    std::vector<std::string> got;
    {
        StdinEventHandler h([&](std::string s) { got.push_back(s); }, true, 1);
        vx_assert(h.wait_for_event(1), "every line asked for is delivered");
    }
    vx_assert(got.size() == 1 && got[0] == line, "the line delivered is the edited one");
    vx_assert(vxrt::term_raw == 0, "the terminal mode is restored");
    vx_cover("much");
}
// a line of about as many characters as the terminal has columns (arg0 and up to four more), edited near its end. arg1 = columns plus one
extern "C" void c37_edge()
{
    size_t n = vx_arg(0) + vx_choose("length", 5), cur;
    vxrt::term_cols = (int)vx_arg(1) - 1;
    std::string line;
    for (size_t i = 0; i < n; i++) line += (char)('a' + i % 26);
    g_keys = line;
    cur = n;
    for (int i = 0; i < 2; i++)
    {
        for (size_t k = vx_choose("left", 3); k; k--) { g_keys += "\033[D"; if (cur) cur--; }
        switch (vx_choose("edit", 4))
        {
            case 0: { char c = vx_sym<char>("character"); vx_assume((c >= ' ') & (c < 127)); g_keys += c; line.insert(line.begin() + cur, c); cur++; break; }
            case 1: g_keys += "\x7f"; if (cur) { line.erase(cur - 1, 1); cur--; } break;
            case 2: g_keys += "\033[3~"; if (cur < line.size()) line.erase(cur, 1); break;
            default: g_keys += "\033[C"; if (cur < line.size()) cur++;
        }
    }
    g_keys += "\n";
    g_pos = 0;
    vxrt::in_hook = keys_hook;
    std::vector<std::string> got;
    {
        StdinEventHandler h([&](std::string s) { got.push_back(s); }, true, 1);
        vx_assert(h.wait_for_event(1), "every line asked for is delivered");
    }
    vx_assert(got.size() == 1 && got[0] == line, "the line delivered is the edited one");
    vx_assert(vxrt::term_raw == 0, "the terminal mode is restored");
    vx_cover("edge");
}
