// C07 ROS 2 topic names, C08 ROS 2 type names
#include "vx.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
typedef std::string S;

static bool begins(const S& s, const S& p)
{
    if (s.size() < p.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < p.size(); i++) ok &= s[i] == p[i];
    return ok;
}
static bool ends(const S& s, const S& p)
{
    if (s.size() < p.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < p.size(); i++) ok &= s[s.size() - p.size() + i] == p[i];
    return ok;
}
static bool same(const S& a, const S& b) { return a.size() == b.size() && begins(a, b); }
static size_t first(const S& s, const S& p)
{
    for (size_t i = 0; i + p.size() <= s.size(); i++) { bool ok = true; for (size_t k = 0; k < p.size(); k++) ok &= s[i + k] == p[k]; if (ok) return i; }
    return S::npos;
}
static S replaced(const S& s, const S& from, const S& to)
{
    S r;
    for (size_t i = 0; i < s.size();)
    {
        bool ok = i + from.size() <= s.size();
        if (ok) for (size_t k = 0; k < from.size(); k++) ok &= s[i + k] == from[k];
        if (ok) { r += to; i += from.size(); } else r += s[i++];
    }
    return r;
}
// a text of up to n pieces, each one of the given ones or (number m) any byte
static S pieces(int n, const char* const* p, int m)
{
    S s;
    int k = (int)vx_choose("pieces", n + 1);
    for (int i = 0; i < k; i++)
    {
        int c = (int)vx_choose("piece", m + 1);
        if (c < m) s += p[c]; else s += (char)vx_sym<char>("byte");
    }
    return s;
}
static void topic(const S& t)
{
    static const char* const pre[] = {"rt", "rq", "rr"};
    int k = -1;
    for (int i = 0; i < 3; i++) if (begins(t, S(pre[i]) + "/")) k = i;
    S rest = k >= 0 ? t.substr(2) : S();
    vx_assert(same(get_ros_prefix_if_exists(t), k >= 0 ? pre[k] : ""), "prefix of a topic");
    vx_assert(same(remove_ros_prefix_if_exists(t), k >= 0 ? rest : t), "removing the prefix if there is one");
    vx_assert(same(demangle_if_ros_topic(t), k >= 0 ? rest : t), "demangling a topic");
    vx_assert(same(demangle_ros_topic_prefix_from_topic(t), k == 0 ? rest : S()), "demangling strictly a topic");
    for (int i = 0; i < 3; i++) vx_assert(same(remove_prefix(t, pre[i]), k == i ? rest : S()), "removing a prefix");
    bool rq = k == 1 && ends(rest, "Request"), rr = k == 2 && ends(rest, "Reply");
    S q = rq ? rest.substr(0, rest.size() - 7) : S(), r = rr ? rest.substr(0, rest.size() - 5) : S();
    vx_assert(same(demangle_ros_service_request_prefix_from_topic(t), q), "demangling a service request");
    vx_assert(same(demangle_ros_service_reply_prefix_from_topic(t), r), "demangling a service reply");
    vx_assert(same(demangle_ros_service_prefix_from_topic(t), rq ? q : r), "demangling either form of a service");
    bool slash = begins(t, "/");
    vx_assert(same(mangle_if_ros_topic(t), slash ? "rt" + t : t), "mangling a topic");
    vx_assert(same(mangle_ros_service_request_prefix_in_topic(t), slash ? "rq" + t + "Request" : S()), "mangling a service request");
    vx_assert(same(mangle_ros_service_reply_prefix_in_topic(t), slash ? "rr" + t + "Reply" : S()), "mangling a service reply");
    vx_assert(same(add_ros_topic_prefix(t), "rt" + t) && same(add_ros_service_requester_prefix(t), "rq" + t) && same(add_ros_service_response_prefix(t), "rr" + t), "adding a prefix");
    if (rq || rr) vx_cover("service");
    if (slash)
    {
        vx_assert(same(demangle_if_ros_topic(mangle_if_ros_topic(t)), t) && same(demangle_ros_topic_prefix_from_topic(mangle_if_ros_topic(t)), t), "a topic survives mangling and demangling");
        S a = mangle_ros_service_request_prefix_in_topic(t), b = mangle_ros_service_reply_prefix_in_topic(t);
        vx_assert(same(demangle_ros_service_request_prefix_from_topic(a), t) && same(demangle_ros_service_prefix_from_topic(a), t), "a service request survives mangling and demangling");
        vx_assert(same(demangle_ros_service_reply_prefix_from_topic(b), t) && same(demangle_ros_service_prefix_from_topic(b), t), "a service reply survives mangling and demangling");
        vx_cover("slash");
    }
}
static void type(const S& t)
{
    const S mark = "dds_::", none;
    size_t m = first(t, mark);
    bool has = m != S::npos;
    S want = has && t.back() == '_' ? replaced(t.substr(0, m), "::", "/") + t.substr(m + 6, t.size() - 1 - m - 6) : t;
    vx_assert(same(demangle_if_ros_type(t), want), "demangling a type");
    size_t g = first(t, "/msg/");
    bool ros = g != S::npos && g + 5 < t.size();
    vx_assert(same(mangle_if_ros_type(t), ros ? replaced(t.substr(0, g + 5), "/", "::") + "dds_::" + t.substr(g + 5) + "_" : t), "mangling a type");
    size_t cut = has ? ends(t, "_Response_") ? 10 : ends(t, "_Request_") ? 9 : 0 : 0;
    vx_assert(same(demangle_service_type_only(t), cut ? replaced(t.substr(0, m), "::", "/") + t.substr(m + 6, t.size() - cut - m - 6) : none), "demangling a service type");
    size_t v = first(t, "/srv/");
    S suffix = begins(t, "rq/") ? "_Request_" : begins(t, "rr/") ? "_Response_" : "";
    S srv = v != S::npos && !suffix.empty() ? replaced(t.substr(0, v + 5) + "dds_::" + t.substr(v + 5) + suffix, "/", "::") : none;
    vx_assert(same(mangle_service_type_only(t), srv), "mangling a service type");
    if (cut) vx_cover("service");
    if (!srv.empty()) vx_cover("mangled service");
    if (ros) vx_cover("message");
    if (has && t.back() == '_') vx_cover("type");
}
extern "C" {
void c07_any()
{
    topic(vx_sym_string("topic", 0, (size_t)vx_arg(0)));
    vx_assert(get_all_ros_prefixes().size() == 3 && get_all_ros_prefixes()[0] == "rt" && get_all_ros_prefixes()[1] == "rq" && get_all_ros_prefixes()[2] == "rr", "the prefixes");
    vx_cover("any");
}
void c07_pieces()
{
    static const char* const p[] = {"rt/", "rq/", "rr", "/", "Request", "Reply"};
    topic(pieces((int)vx_arg(0), p, 6));
    vx_cover("pieces");
}
void c07_prefix()
{
    S n = vx_sym_string("name", 0, (size_t)vx_arg(0)), p = vx_sym_string("prefix", 0, 2);
    bool b = begins(n, p + "/");
    vx_assert(same(remove_prefix(n, p), b ? n.substr(p.size()) : S()), "removing a prefix");
    vx_assert(same(add_prefix(n, p), p + n) && same(add_suffix(n, p), n + p), "adding prefixes and suffixes");
    vx_cover(b ? "present" : "absent");
}
void c08_any() { type(vx_sym_string("type", 0, (size_t)vx_arg(0))); vx_cover("any"); }
void c08_pieces()
{
    static const char* const p[] = {"dds_::", "_Request_", "_Response_", "::", "_"};
    type(pieces((int)vx_arg(0), p, 5));
    vx_cover("pieces");
}
void c08_slashes()
{
    static const char* const p[] = {"/msg/", "/srv/", "rq", "rr/", "/"};
    type(pieces((int)vx_arg(0), p, 5));
    vx_cover("slashes");
}
// message types of well formed names
void c08_roundtrip()
{
    int ns = (int)vx_arg(0);
    S pkg = vx_sym_string("package", 1, ns), name = vx_sym_string("name", 1, ns);
    for (char c : pkg) { bool ok = (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_'; vx_assume(ok); }
    vx_assume(pkg.back() != '_');
    for (char c : name) { bool ok = (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z'); vx_assume(ok); }
    S t = pkg + "/msg/" + name, d = mangle_if_ros_type(t);
    vx_assert(same(d, pkg + "::msg::dds_::" + name + "_"), "mangling a message type");
    vx_assert(same(demangle_if_ros_type(d), t), "a message type survives mangling and demangling");
    // service types, both forms
    S s = pkg + "/srv/" + name;
    S q = demangle_service_type_only(pkg + "::srv::dds_::" + name + "_Request_"), r = demangle_service_type_only(pkg + "::srv::dds_::" + name + "_Response_");
    vx_assert(same(q, s) && same(r, s), "demangling a service type");
    vx_cover("roundtrip");
}
// long names: arg0 characters with two arbitrary ones anywhere, in every form
static S long_name(size_t n)
{
    S s;
    for (size_t i = 0; i < n; i++) s += "ab/cd_ef"[i % 8];
    S any = vx_sym_string("bytes", 2, 2);
    size_t at = vx_choose("position", 4) * (n - 2) / 3;
    for (size_t i = 0; i < 2; i++) s[at + i] = any[i];
    return s;
}
void c07_much()
{
    static const char* const pre[] = {"", "/", "rt/", "rq/", "rr/", "rt", "x"};
    static const char* const suf[] = {"", "Request", "Reply"};
    topic(pre[vx_choose("begin", 7)] + long_name((size_t)vx_arg(0)) + suf[vx_choose("end", 3)]);
    vx_cover("much");
}
void c08_much()
{
    static const char* const mid[] = {"/msg/", "/srv/", "::msg::dds_::", "::srv::dds_::", "::"};
    static const char* const suf[] = {"", "_", "_Request_", "_Response_"};
    static const char* const pre[] = {"", "rq/", "rr/"};
    S a = long_name((size_t)vx_arg(0)), t = pre[vx_choose("begin", 3)];
    for (char c : a) { if (c == '/') t += "::"; else t += c; }
    t += mid[vx_choose("middle", 5)];
    for (size_t i = 0; i < (size_t)vx_arg(0) / 2; i++) t += (char)('A' + i % 26);
    type(t + suf[vx_choose("end", 4)]);
    vx_cover("much");
}
}
