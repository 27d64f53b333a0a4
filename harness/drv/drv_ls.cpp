// Drives the language server's parts in process: base protocol channel, request manager, LSP and DAP sessions.
#include <atomic>
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

#include "base_protocol_channel.h"
#include "common.h"
#include "dap/dap_server.h"
#include "ebcdic_encoding.h"
#include "lsp/lsp_server.h"
#include "request_manager.h"
#include "stream_helper.h"
#include "workspace_manager.h"
#include "workspaces/file_impl.h"
#include "workspaces/file_manager_impl.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace pl = hlasm_plugin::parser_library;

// ---- statement hook: cancels the running analysis at a chosen statement
static std::atomic<bool>* g_cancel = nullptr;
static long g_countdown = -1;
static long g_statements = 0;
extern "C" void hlasm_verif_statement()
{
    ++g_statements;
    if (g_countdown >= 0 && g_countdown-- == 0 && g_cancel)
        *g_cancel = true;
}

namespace {
std::string unhex(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s)
    {
        r.push_back(d[c >> 4]);
        r.push_back(d[c & 15]);
    }
    return r;
}

// ---- framing
struct chunk_buf : std::streambuf
{
    std::string data;
    std::vector<size_t> cuts;
    size_t pos = 0, next = 0;
    int underflow() override
    {
        if (pos >= data.size())
            return traits_type::eof();
        size_t n = next < cuts.size() ? std::max<size_t>(1, cuts[next++]) : data.size() - pos;
        n = std::min(n, data.size() - pos);
        setg(&data[pos], &data[pos], &data[pos] + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
};

json frame_read(const json& rq)
{
    chunk_buf b;
    b.data = unhex(rq["data"]);
    b.cuts = rq.value("cuts", std::vector<size_t> {});
    std::istream in(&b);
    // as native_server_streams does
    newline_is_space::imbue_stream(in);
    std::ostringstream o;
    base_protocol_channel ch(in, o);
    json out = json::array();
    size_t ends = 0;
    for (;;)
    {
        auto m = ch.read();
        if (!m)
        {
            if (++ends == 2)
                break;
            continue;
        }
        if (ends)
            return { { "msgs", out }, { "after_end", true } };
        out.push_back(std::move(*m));
    }
    return { { "msgs", out } };
}

json frame_write(const json& rq)
{
    std::istringstream in;
    std::ostringstream o;
    base_protocol_channel ch(in, o);
    std::vector<std::thread> ts;
    for (const auto& list : rq["threads"])
        ts.emplace_back([&ch, &list]() {
            bool move = false;
            for (const auto& m : list)
            {
                if ((move = !move))
                    ch.write(m);
                else
                    ch.write(json(m));
            }
        });
    for (auto& t : ts)
        t.join();
    return { { "data", hex(o.str()) } };
}

// ---- request manager: every delivery waits at a gate, so that the schedule is the script's
struct gate_server : server
{
    struct shared
    {
        std::mutex m;
        std::condition_variable cv;
        json log = json::array();
        int started = 0, ended = 0, running = 0;
        std::map<int, int> tokens; // per session
        std::vector<int> gate; // sessions with a message at the gate
        bool free = false;
        std::atomic<bool> cancel = false;
        std::thread::id worker;
    };
    shared& s;
    int id;
    static pl::workspace_manager& ws()
    {
        static pl::workspace_manager w;
        return w;
    }
    gate_server(shared& s, int id)
        : server(ws())
        , s(s)
        , id(id)
    {}
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json&) override {}
    void notify(const std::string&, const json&) override {}
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override {}
    void message_received(const json& m) override
    {
        std::unique_lock l(s.m);
        ++s.started;
        s.log.push_back({ "start", id, m["n"], s.cancel.load(), ++s.running });
        s.cv.notify_all();
        s.gate.push_back(id);
        s.cv.wait(l, [&] { return s.free || s.tokens[id] > 0; });
        if (s.tokens[id] > 0)
            --s.tokens[id];
        s.gate.erase(std::find(s.gate.begin(), s.gate.end(), id));
        s.log.push_back({ "end", id, m["n"], s.cancel.load(), s.running-- });
        ++s.ended;
        s.cv.notify_all();
    }
};

json reqmgr(const json& rq)
{
    gate_server::shared s;
    std::vector<std::unique_ptr<gate_server>> srv;
    for (int i = 0; i < 3; ++i)
        srv.push_back(std::make_unique<gate_server>(s, i));
    int queued = 0; // not started
    bool stuck = false;
    {
        request_manager rm(&s.cancel);
        auto settle = [&](int want_started) {
            std::unique_lock l(s.m);
            if (!s.cv.wait_for(l, std::chrono::seconds(10), [&] { return s.started >= want_started; }))
                stuck = true;
        };
        // the worker holds the first request at the gate whenever there is one
        int added = 0, removed = 0, done = 0;
        auto expect_started = [&] { return std::min(added - removed, done + 1); };
        bool ended = false;
        for (const auto& st : rq["script"])
        {
            if (stuck)
                break;
            std::string op = st[0];
            if (op == "add")
            {
                json msg = st[2];
                rm.add_request(srv[st[1].get<int>()].get(), msg);
                ++added;
                {
                    std::lock_guard l(s.m);
                    s.log.push_back({ "added", st[1], msg["n"] });
                }
                settle(expect_started());
            }
            else if (op == "run")
            {
                {
                    std::unique_lock l(s.m);
                    if (s.started == s.ended)
                        continue; // idle
                    int e = s.ended;
                    ++s.tokens[s.gate.front()];
                    s.cv.notify_all();
                    if (!s.cv.wait_for(l, std::chrono::seconds(10), [&] { return s.ended > e; }))
                        stuck = true;
                    done = s.ended;
                }
                settle(expect_started());
            }
            else if (op == "finish")
            {
                int id = st[1];
                bool returned = false;
                {
                    std::lock_guard l(s.m);
                    s.log.push_back({ "finishing", id });
                }
                std::thread t([&] {
                    rm.finish_server_requests(srv[id].get());
                    std::lock_guard l(s.m);
                    s.log.push_back({ "finished", id });
                    returned = true;
                    s.cv.notify_all();
                });
                {
                    std::unique_lock l(s.m);
                    s.cv.wait_for(l, std::chrono::milliseconds(15), [&] { return returned; });
                    // let the message of this session that is at the gate go, and then those executed by the call
                    if (!returned)
                        for (;;)
                        {
                            // a message of another session stays at the gate
                            if (std::count(s.gate.begin(), s.gate.end(), id))
                            {
                                int e = s.ended;
                                ++s.tokens[id];
                                s.cv.notify_all();
                                if (!s.cv.wait_for(l, std::chrono::seconds(10), [&] { return s.ended > e; }))
                                {
                                    stuck = true;
                                    break;
                                }
                            }
                            if (!s.cv.wait_for(l, std::chrono::seconds(3), [&] {
                                    if (returned)
                                        return true;
                                    return std::count(s.gate.begin(), s.gate.end(), id) > 0;
                                }))
                            {
                                stuck = true;
                                break;
                            }
                            if (returned)
                                break;
                        }
                    s.free = stuck;
                    s.cv.notify_all();
                }
                t.join();
                {
                    std::lock_guard l(s.m);
                    // those the call executed do not go through the worker
                    done = s.ended;
                }
                settle(expect_started());
            }
            else if (op == "end")
            {
                {
                    std::lock_guard l(s.m);
                    s.log.push_back({ "ending" });
                }
                std::thread t([&] { rm.end_worker(); });
                {
                    std::unique_lock l(s.m);
                    s.cv.wait_for(l, std::chrono::milliseconds(5), [] { return false; });
                    s.free = true;
                    s.cv.notify_all();
                }
                t.join();
                {
                    std::lock_guard l(s.m);
                    s.log.push_back({ "ended" });
                }
                ended = true;
                break;
            }
        }
        {
            std::unique_lock l(s.m);
            if (!ended)
                s.log.push_back({ "drain" });
            s.free = true;
            s.cv.notify_all();
            if (!ended && !stuck)
                if (!s.cv.wait_for(l, std::chrono::seconds(10), [&] { return s.ended == s.started && s.started >= added; }))
                    stuck = true;
        }
        if (!ended)
            rm.end_worker();
    }
    return { { "log", s.log }, { "stuck", stuck } };
}

// several producers, a free running worker
json reqstress(const json& rq)
{
    gate_server::shared s;
    s.free = true;
    std::vector<std::unique_ptr<gate_server>> srv;
    for (int i = 0; i < 3; ++i)
        srv.push_back(std::make_unique<gate_server>(s, i));
    {
        request_manager rm(&s.cancel);
        std::vector<std::thread> ts;
        size_t total = 0;
        for (const auto& p : rq["producers"])
        {
            total += p.size();
            ts.emplace_back([&, &p = p] {
                for (const auto& st : p)
                    rm.add_request(srv[st[0].get<int>()].get(), st[1]);
            });
        }
        for (auto& t : ts)
            t.join();
        {
            std::unique_lock l(s.m);
            s.cv.wait_for(l, std::chrono::seconds(20), [&] { return (size_t)s.ended >= total; });
        }
        rm.end_worker();
    }
    return { { "log", s.log } };
}

// ---- LSP sessions
struct spy_manager : pl::workspace_manager
{
    pl::workspaces::file_manager_impl mirror;
    explicit spy_manager(std::atomic<bool>* c)
        : workspace_manager(c)
    {}
    void did_open_file(const char* u, pl::version_t v, const char* t, size_t n) override
    {
        mirror.did_open_file(u, v, std::string(t, n));
        workspace_manager::did_open_file(u, v, t, n);
    }
    void did_change_file(const char* u, pl::version_t v, const pl::document_change* c, size_t n) override
    {
        mirror.did_change_file(u, v, c, n);
        workspace_manager::did_change_file(u, v, c, n);
    }
    void did_close_file(const char* u) override
    {
        mirror.did_close_file(u);
        mirror.remove_file(u);
        workspace_manager::did_close_file(u);
    }
};

struct collector : send_message_provider
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<json> out;
    void reply(const json& r) override
    {
        std::lock_guard l(m);
        out.push_back(r);
        cv.notify_all();
    }
};

void write_file(const std::string& p, const std::string& text)
{
    std::filesystem::create_directories(std::filesystem::path(p).parent_path());
    std::ofstream f(p, std::ios::binary);
    f << text;
}

void file_step(const json& st)
{
    if (st.contains("w"))
        write_file(st["w"][0], st["w"][1]);
    else if (st.contains("wx"))
        write_file(st["wx"][0], unhex(st["wx"][1]));
    else if (st.contains("d"))
        std::filesystem::remove_all(st["d"].get<std::string>());
    else if (st.contains("mkdir"))
        std::filesystem::create_directories(st["mkdir"].get<std::string>());
}

json lsp_session(const json& rq)
{
    std::atomic<bool> cancel = false;
    spy_manager ws(&cancel);
    lsp::server srv(ws);
    collector c;
    srv.set_send_message_provider(&c);
    g_cancel = &cancel;
    json res = json::array();
    for (const auto& st : rq["steps"])
    {
        json r;
        if (st.contains("m"))
        {
            c.out.clear();
            cancel = false;
            g_countdown = st.value("cancel", -1);
            if (st.value("cancelled", false))
                cancel = true;
            g_statements = 0;
            try
            {
                srv.message_received(st["m"]);
            }
            catch (const std::exception& e)
            {
                r["exc"] = e.what();
            }
            g_countdown = -1;
            r["out"] = c.out;
            r["st"] = g_statements;
            r["cancelled"] = cancel.load();
        }
        else if (st.contains("text"))
        {
            auto f = ws.mirror.find(st["text"].get<std::string>());
            if (f)
            {
                r["text"] = hex(f->get_text());
                r["version"] = f->get_version();
            }
            else
                r["text"] = nullptr;
        }
        else
            file_step(st);
        res.push_back(std::move(r));
    }
    g_cancel = nullptr;
    return { { "r", res }, { "exit", srv.is_exit_notification_received() }, { "shutdown", srv.is_shutdown_request_received() } };
}

// ---- DAP sessions: actions, and everything that can be asked at every stop
json dap_session(const json& rq)
{
    std::atomic<bool> cancel = false;
    pl::workspace_manager ws(&cancel);
    lsp::server lsrv(ws);
    collector lc;
    lsrv.set_send_message_provider(&lc);
    for (const auto& st : rq["setup"])
    {
        if (st.contains("m"))
            lsrv.message_received(st["m"]);
        else
            file_step(st);
    }
    json res;
    res["stops"] = json::array();
    collector c;
    {
        dap::server srv(ws);
        srv.set_send_message_provider(&c);
        int seq = 0;
        auto send = [&](const std::string& cmd, const json& args) -> json {
            json m { { "seq", ++seq }, { "type", "request" }, { "command", cmd }, { "arguments", args } };
            srv.message_received(m);
            std::lock_guard l(c.m);
            json found;
            int n = 0;
            for (const auto& o : c.out)
                if (o["type"] == "response" && o["request_seq"] == seq)
                {
                    found = o;
                    ++n;
                }
            if (n > 1)
                throw std::runtime_error("two answers to " + cmd);
            return found.is_null() ? json() : found["body"];
        };
        size_t seen = 0; // events consumed
        auto wait_event = [&]() -> std::string {
            std::unique_lock l(c.m);
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(rq.value("wait", 15));
            for (;;)
            {
                for (; seen < c.out.size(); ++seen)
                    if (c.out[seen]["type"] == "event")
                    {
                        std::string e = c.out[seen]["event"];
                        if (e == "stopped" || e == "terminated")
                        {
                            ++seen;
                            return e;
                        }
                    }
                if (c.cv.wait_until(l, end) == std::cv_status::timeout)
                    return "timeout";
            }
        };
        int base1 = rq.value("base1", 1);
        std::string fmt = rq.value("fmt", "path");
        send("initialize", { { "linesStartAt1", base1 == 1 }, { "columnsStartAt1", base1 == 1 }, { "pathFormat", fmt } });
        auto set_bps = [&](const json& b) {
            for (const auto& [f, lines] : b.items())
            {
                json bps = json::array();
                for (const auto& x : lines)
                    bps.push_back({ { "line", x.get<int>() + base1 } });
                json a = send("setBreakpoints", { { "source", { { "path", f } } }, { "breakpoints", bps } });
                if (a.is_null() || a["breakpoints"].size() != lines.size())
                    throw std::runtime_error("setBreakpoints answered wrongly");
            }
        };
        for (const auto& x : rq.value("pre", json::array()))
            send(x[0], x[1]);
        set_bps(rq["bps"]);
        send("launch", { { "program", rq["program"] }, { "stopOnEntry", rq["entry"] } });
        bool vars = rq.value("vars", true);
        size_t a = 0;
        const auto& acts = rq["acts"];
        std::string ev;
        for (;;)
        {
            if (rq.value("nowait", false))
                break;
            ev = wait_event();
            if (ev != "stopped")
                break;
            json stop;
            json fr = send("stackTrace", { { "threadId", 1 } });
            for (auto& f : fr["stackFrames"])
            {
                json one { f["name"], f["source"]["path"], f["line"].get<int>() - base1, f["endLine"].get<int>() - base1 };
                if (vars)
                {
                    json scopes;
                    json all_scopes = send("scopes", { { "frameId", f["id"] } });
                    for (auto& s : all_scopes["scopes"])
                    {
                        std::function<json(const json&, int)> get = [&](const json& ref, int depth) -> json {
                            json o = json::object();
                            json all = send("variables", { { "variablesReference", ref } });
                            for (auto& v : all["variables"])
                            {
                                json e { v["value"], v.value("type", "") };
                                if (v["variablesReference"] != 0 && depth < 6)
                                    e.push_back(get(v["variablesReference"], depth + 1));
                                std::string n = v["name"];
                                if (o.contains(n))
                                    n += " (again)";
                                o[n] = e;
                            }
                            return o;
                        };
                        scopes[s["name"].get<std::string>()] = get(s["variablesReference"], 0);
                    }
                    one.push_back(scopes);
                }
                stop.push_back(one);
            }
            res["stops"].push_back(stop);
            if (a >= acts.size())
                break;
            const auto& act = acts[a++];
            if (act.is_object())
            {
                if (act.contains("bps"))
                    set_bps(act["bps"]);
                send(act["do"], { { "threadId", 1 } });
            }
            else if (act == "disconnect")
                break;
            else
                send(act, { { "threadId", 1 } });
        }
        res["last"] = ev;
        if (ev == "timeout")
            throw std::runtime_error("tracing: neither stopped nor terminated");
        for (const auto& x : rq.value("post", json::array()))
        {
            send(x[0], x[1]);
            if (rq.contains("pause"))
                std::this_thread::sleep_for(std::chrono::microseconds(rq["pause"].get<int>()));
        }
        send("disconnect", json::object());
        res["exit"] = srv.is_exit_notification_received();
    }
    size_t ended = 0;
    for (const auto& o : c.out)
        if (o["type"] == "event" && o["event"] == "terminated")
            ++ended;
    res["terminated"] = ended;
    // the editor session afterwards
    lc.out.clear();
    res["after"] = json::array();
    for (const auto& st : rq.value("after", json::array()))
    {
        lc.out.clear();
        lsrv.message_received(st["m"]);
        res["after"].push_back(lc.out);
    }
    return res;
}

json enc(const json& rq)
{
    json out;
    if (rq.contains("san"))
        for (const auto& h : rq["san"])
            out["san"].push_back(hex(pl::workspaces::file_impl::replace_non_utf8_chars(unhex(h))));
    if (rq.value("tables", false))
    {
        for (int i = 0; i < 256; ++i)
        {
            out["e2a"].push_back(hex(pl::ebcdic_encoding::to_ascii((unsigned char)i)));
            std::string a = pl::ebcdic_encoding::to_ascii((unsigned char)i);
            out["back"].push_back(pl::ebcdic_encoding::to_ebcdic(a)[0] & 0xff);
        }
    }
    if (rq.contains("toe"))
        for (const auto& h : rq["toe"])
            out["toe"].push_back(hex(pl::ebcdic_encoding::to_ebcdic(unhex(h))));
    if (rq.contains("toa"))
        for (const auto& h : rq["toa"])
            out["toa"].push_back(hex(pl::ebcdic_encoding::to_ascii(unhex(h))));
    if (rq.contains("uri"))
        for (const auto& p : rq["uri"])
        {
            auto u = feature::path_to_uri(p.get<std::string>());
            out["uri"].push_back({ u, feature::uri_to_path(u) });
        }
    return out;
}
} // namespace

int main()
{
    return serve([](const json& rq) -> json {
        auto op = rq.value("op", "");
        if (op == "frame_read")
            return frame_read(rq);
        if (op == "frame_write")
            return frame_write(rq);
        if (op == "reqmgr")
            return reqmgr(rq);
        if (op == "reqstress")
            return reqstress(rq);
        if (op == "lsp")
            return lsp_session(rq);
        if (op == "dap")
            return dap_session(rq);
        if (op == "enc")
            return enc(rq);
        return { { "exception", "unknown op" } };
    });
}
