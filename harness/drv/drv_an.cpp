// Drives the analyzer over generated programs and reports everything observable about the analysis.
#include <atomic>
#include <map>
#include <memory>
#include <optional>
#include <set>

#include "analyzer.h"
#include "common.h"
#include "ebcdic_encoding.h"
#include "workspaces/file_impl.h"

using namespace hlasm_plugin::parser_library;

namespace {
json jpos(position p) { return json::array({ p.line, p.column }); }
json jrange(range r) { return json::array({ r.start.line, r.start.column, r.end.line, r.end.column }); }

json jdiags(const std::vector<diagnostic_s>& ds)
{
    json out = json::array();
    for (const auto& d : ds)
    {
        json rel = json::array();
        for (const auto& r : d.related)
            rel.push_back({ r.location.uri, jrange(r.location.rang), r.message });
        out.push_back({ { "code", d.code },
            { "sev", (int)d.severity },
            { "file", d.file_name },
            { "r", jrange(d.diag_range) },
            { "msg", d.message },
            { "rel", rel } });
    }
    return out;
}

std::string upper(std::string s)
{
    for (auto& c : s)
        c = (char)toupper((unsigned char)c);
    return s;
}

std::atomic<bool> g_cut = false; // set when an analysis exceeds its number of statements
long g_left = -1;

struct libs : workspaces::parse_lib_provider
{
    std::map<std::string, std::string> members;
    asm_option opts;
    std::vector<diagnostic_s> diags;
    json tokens = json::object();
    bool hl = false;
    std::atomic<bool>* cancel = nullptr;
    std::vector<std::string> requested;

    workspaces::parse_result parse_library(
        const std::string& library, analyzing_context ctx, const workspaces::library_data data) override
    {
        auto it = members.find(upper(library));
        if (it == members.end())
            return false;
        requested.push_back(it->first);
        analyzer a(it->second, it->first, ctx, *this, data, hl);
        a.analyze(cancel);
        a.collect_diags();
        for (const auto& d : a.diags())
            diags.push_back(d);
        if (hl)
            tokens[it->first] = jtokens(a);
        return true;
    }
    bool has_library(const std::string& library, const std::string&) const override
    {
        return members.count(upper(library)) > 0;
    }
    const asm_option& get_asm_options(const std::string&) override { return opts; }

    static json jtokens(const analyzer& a)
    {
        json out = json::array();
        for (const auto& t : a.source_processor().semantic_tokens())
        {
            auto j = jrange(t.token_range);
            j.push_back((int)t.scope);
            out.push_back(j);
        }
        return out;
    }
};

template<typename T>
json jset(const context::set_symbol<T>& s)
{
    if (s.is_scalar)
        return s.get_value();
    json out = json::object();
    for (auto k : s.keys())
        out[std::to_string(k + 1)] = s.get_value(k);
    return out;
}

json jvar(context::hlasm_context& h, const std::string& name)
{
    auto sym = h.get_var_sym(h.ids().add(name));
    if (!sym)
        return nullptr;
    auto set = sym->access_set_symbol_base();
    if (!set)
        return "not a SET symbol";
    if (auto a = set->access_set_symbol<context::A_t>())
        return { { "t", "A" }, { "v", jset(*a) } };
    if (auto b = set->access_set_symbol<context::B_t>())
        return { { "t", "B" }, { "v", jset(*b) } };
    if (auto c = set->access_set_symbol<context::C_t>())
        return { { "t", "C" }, { "v", jset(*c) } };
    return nullptr;
}

json jsym(context::hlasm_context& h, const std::string& name)
{
    auto s = h.ord_ctx.get_symbol(h.ids().add(name));
    if (!s)
        return nullptr;
    json out;
    switch (s->kind())
    {
        case context::symbol_value_kind::ABS:
            out["k"] = "A";
            out["v"] = s->value().get_abs();
            break;
        case context::symbol_value_kind::RELOC: {
            const auto& r = s->value().get_reloc();
            out["k"] = "R";
            out["v"] = r.offset();
            std::map<std::string, int> bases;
            for (const auto& b : r.bases())
                if (b.second != 0)
                    bases[*b.first.owner->name] += b.second;
            out["b"] = bases;
            out["u"] = r.has_unresolved_space();
            break;
        }
        default:
            out["k"] = "U";
    }
    const auto& at = s->attributes();
    out["T"] = at.type() < 256 ? std::string(1, (char)ebcdic_encoding::e2a[at.type()]) : std::to_string(at.type());
    if (at.is_defined(context::data_attr_kind::L))
        out["L"] = at.length();
    if (at.is_defined(context::data_attr_kind::S))
        out["S"] = at.scale();
    if (at.can_have_SI_attr() && at.is_defined(context::data_attr_kind::I))
        out["I"] = at.integer();
    out["at"] = { s->symbol_location.file, jpos(s->symbol_location.pos) };
    return out;
}

json jquery(const lsp::lsp_context& l, const std::string& kind, const std::string& file, position p, const json& q)
{
    if (kind == "def")
    {
        auto d = l.definition(file, p);
        return json::array({ d.file, d.pos.line, d.pos.column });
    }
    if (kind == "ref")
    {
        json out = json::array();
        for (const auto& r : l.references(file, p))
            out.push_back({ r.file, r.pos.line, r.pos.column });
        return out;
    }
    if (kind == "hov")
        return l.hover(file, p);
    if (kind == "com")
    {
        char c = 0;
        auto k = completion_trigger_kind::invoked;
        if (q.contains("ch"))
        {
            c = q["ch"].get<std::string>()[0];
            k = completion_trigger_kind::trigger_character;
        }
        json out = json::array();
        for (const auto& i : l.completion(file, p, c, k))
            if ((!q.contains("only") || (int)i.kind == q["only"]) && (!q.contains("names") || std::find(q["names"].begin(), q["names"].end(), i.label) != q["names"].end()))
                out.push_back({ i.label, i.detail, i.insert_text, i.documentation, (int)i.kind });
        if (q.value("short", false))
        {
            // instruction lists are long: labels and kinds only
            json s = json::array();
            for (const auto& i : out)
                s.push_back({ i[0], i[4] });
            return s;
        }
        return out;
    }
    return "?";
}

json analyze(const json& rq)
{
    libs lib;
    if (rq.contains("libs"))
        for (const auto& [k, v] : rq["libs"].items())
            lib.members[upper(k)] = v.get<std::string>();
    lib.opts.sysparm = rq.value("sysparm", "");
    lib.opts.profile = rq.value("profile", "");
    lib.hl = rq.value("hl", false);
    std::string name = rq.value("name", "PROG");
    std::string text = rq["text"].get<std::string>();
    if (rq.value("sanitize", false))
        text = workspaces::file_impl::replace_non_utf8_chars(text);

    analyzer a(text, name, lib, lib.hl);
    g_cut = false;
    g_left = rq.value("limit", -1);
    lib.cancel = g_left < 0 ? nullptr : &g_cut;
    a.analyze(lib.cancel);
    a.collect_diags();

    json out;
    if (g_cut)
        return { { "cut", true } };
    auto all = a.diags();
    all.insert(all.end(), lib.diags.begin(), lib.diags.end());
    out["diags"] = jdiags(all);
    out["req"] = lib.requested;
    if (lib.hl)
    {
        out["tok"] = libs::jtokens(a);
        out["ltok"] = lib.tokens;
    }
    auto& h = a.hlasm_ctx();
    if (rq.contains("vars"))
        for (const auto& v : rq["vars"])
            out["vars"][v.get<std::string>()] = jvar(h, v);
    if (rq.contains("syms"))
        for (const auto& v : rq["syms"])
            out["syms"][v.get<std::string>()] = jsym(h, v);
    if (rq.value("metrics", false))
    {
        const auto& m = a.get_metrics();
        out["metrics"] = { m.lines, m.macro_def_statements, m.macro_statements, m.open_code_statements, m.copy_statements, m.copy_def_statements, m.reparsed_statements, m.lookahead_statements, m.continued_statements, m.non_continued_statements };
    }
    auto l = a.context().lsp_ctx;
    if (rq.contains("q"))
    {
        out["q"] = json::array();
        for (const auto& q : rq["q"])
            out["q"].push_back(jquery(*l, q["k"], q["f"], { q["l"], q["c"] }, q));
    }
    if (rq.contains("sweep")) // every feature at every position of a file; only the ranges come back
    {
        json s = json::array();
        for (const auto& sw : rq["sweep"])
        {
            std::string f = sw["f"];
            size_t step = sw.value("step", 1);
            for (size_t i = 0; i < sw["cols"].size(); ++i)
                for (size_t c = 0; c <= sw["cols"][i].get<size_t>(); c += step)
                {
                    position p { i, c };
                    s.push_back({ f, i, c, jquery(*l, "def", f, p, {}), jquery(*l, "ref", f, p, {}), l->hover(f, p) });
                    for (char ch : std::string("\0&. ", 4))
                    {
                        auto items = l->completion(f, p, ch, ch ? completion_trigger_kind::trigger_character : completion_trigger_kind::invoked);
                        (void)items;
                    }
                }
        }
        out["sweep"] = s;
    }
    return out;
}
} // namespace

extern "C" void hlasm_verif_statement()
{
    if (g_left >= 0 && g_left-- == 0)
        g_cut = true;
}

int main()
{
    return serve([](const json& rq) -> json {
        auto op = rq.value("op", "an");
        if (op == "an")
            return analyze(rq);
        return { { "exception", "unknown op" } };
    });
}
