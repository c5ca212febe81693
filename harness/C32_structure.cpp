//@ all: time=90
//@ bound: documents of 3 blocks (thorough 5, 4 of those that start with an action, endpoint or URI) in every order of: paragraph, plain header, Group, named resource, resource by URI, action by method, named action, named endpoint and endpoint; nine sequences of 6 and 7 blocks; every choice of two URIs, two methods and two group names, with and without source maps
//@ outside: the Markdown parser (sundown is absent): documents enter as the tree of nodes and source ranges it builds; lists, which the checks of payloads, parameters and data structures cover
#include "bp.h"
using namespace bp;
namespace
{
    const char* kinds = "PHGRUANEC";
    struct Machine {
        md::Doc d;
        Expect x;
        bool sections = false; // past the description of the API
        bool lost = false;     // past an action without a resource
        XElement* group = nullptr;
        XResource* res = nullptr;
        XAction* act = nullptr;
        int n = 0;
        std::vector<std::string> uris, groups;
        At header(int level, const std::string& t)
        {
            d.header(level, t);
            return d.root.children().back().sourceMap;
        }
        std::string pick(const char* what, const char* a, const char* b) { return sym_bool(what) ? b : a; }
        void free(const std::string& text, const At& at) // text that opens no section
        {
            if (lost) x.warnings.push_back(IgnoringWarning);
            else if (act) act->desc.add(text, at);
            else if (res) res->desc.add(text, at);
            else if (group) group->copy.add(text, at), group->copied = true;
            else x.desc.add(text, at);
        }
        void warn(int code, const At& at, const std::vector<std::string>& names)
        {
            x.warnings.push_back(code);
            x.says.push_back({ code, names, at });
        }
        XResource& resource(const std::string& name, const std::string& uri, const At& at)
        {
            for (auto& u : uris)
                if (u == uri) {
                    warn(DuplicateWarning, at, { "'" + uri + "'" });
                    break;
                }
            uris.push_back(uri);
            XResource r;
            r.name = name, r.uri = uri, r.at = at;
            if (!group) {
                x.elements.emplace_back();
                x.elements.back().resources.push_back(r);
                res = &x.elements.back().resources.back();
            } else {
                group->resources.push_back(r);
                res = &group->resources.back();
            }
            act = nullptr;
            lost = false;
            sections = true;
            return *res;
        }
        void action(const std::string& name, const std::string& method, const std::string& uri, const At& at)
        {
            for (auto& a : res->actions)
                if (a.method == method && a.uri == uri) {
                    warn(DuplicateWarning, at, { "'" + method + "'", "'" + res->uri });
                    break;
                }
            XAction a;
            a.name = name, a.method = method, a.uri = uri, a.at = at;
            res->actions.push_back(a);
            act = &res->actions.back();
            warn(EmptyDefinitionWarning, at, { "response" });
        }
        void block(char k)
        {
            std::string id(1, (char)('0' + n++)), name = "n" + id;
            bool first = d.src.empty();
            switch (k) {
                case 'P': {
                    d.text("p" + id);
                    free("p" + id, d.root.children().back().sourceMap);
                    break;
                }
                case 'H': {
                    At at = header(1, name);
                    if (first) x.name = name, x.nameAt = at;
                    else free("# " + name, at);
                    break;
                }
                case 'G': {
                    std::string g = pick("group", "g", "h");
                    At at = header(1, "Group " + g);
                    for (auto& o : groups)
                        if (o == g) {
                            warn(DuplicateWarning, at, { "'" + g + "'" });
                            break;
                        }
                    groups.push_back(g);
                    x.elements.emplace_back();
                    group = &x.elements.back();
                    group->group = true;
                    group->name = g;
                    group->at = at;
                    res = nullptr, act = nullptr, lost = false, sections = true;
                    break;
                }
                case 'R':
                case 'U': {
                    std::string u = pick("uri", "/a", "/b");
                    At at = header(2, k == 'R' ? name + " [" + u + "]" : u);
                    resource(k == 'R' ? name : "", u, at);
                    break;
                }
                case 'E': {
                    std::string u = pick("uri", "/a", "/b");
                    At at = header(2, name + " [PUT " + u + "]");
                    if (res && !res->endpoint && !lost) action(name, "PUT", u, at);
                    else {
                        resource(name, u, at).endpoint = true;
                        action(name, "PUT", u, at);
                    }
                    break;
                }
                case 'C': {
                    std::string u = pick("uri", "/a", "/b");
                    At at = header(2, "GET " + u);
                    resource("", u, at).endpoint = true;
                    action("", "GET", "", at);
                    break;
                }
                default: {
                    std::string m = pick("method", "GET", "PUT"), t = k == 'A' ? m : name + " [" + m + "]";
                    At at = header(3, t);
                    if (first) x.name = t, x.nameAt = at;
                    else if (res && !res->endpoint) action(k == 'A' ? "" : name, m, "", at);
                    else if (lost || res) warn(IgnoringWarning, at, { "'" + m + "'", "'" + res->uri + "'" }), lost = true, act = nullptr;
                    else free("### " + t, at);
                }
            }
        }
        void finish(bool maps)
        {
            if (x.name.empty() && !x.desc.text.empty()) x.warnings.push_back(APINameWarning);
            d.parse(maps ? ExportSourcemapOption : 0);
            sym_observe("warnings", d.report.warnings.size());
            sym_observe("elements", d.bp.content.elements().size());
            check(x, d, maps);
        }
    };
    void sequence(char first, int more, bool maps)
    {
        Machine m;
        for (char k = first; ; k = kinds[sym_range("block", 0, 8)]) {
            m.block(k);
            if (!more--) break;
        }
        m.finish(maps);
        sym_reach("document");
    }
}
HARNESS(paragraph) { sequence('P', BOUND(2, 4), true); }
HARNESS(header) { sequence('H', BOUND(2, 4), true); }
HARNESS(group) { sequence('G', BOUND(2, 4), true); }
HARNESS(resource) { sequence('R', BOUND(2, 4), true); }
HARNESS(uri) { sequence('U', BOUND(2, 3), true); }
HARNESS(method) { sequence('A', BOUND(2, 3), true); }
HARNESS(action) { sequence('N', BOUND(2, 3), true); }
HARNESS(named_endpoint) { sequence('E', BOUND(2, 4), true); }
HARNESS(endpoint) { sequence('C', BOUND(2, 3), true); }
// what is defined again, with others between
HARNESS(longer)
{
    const char* const all[] = { "GRGRGR", "RAAARA", "GRRGRA", "UAUAUA", "GEGEGE", "RCRCRC", "GRPARPA", "GPRAGRA", "PRAPNAH" };
    Machine m;
    for (const char* k = all[sym_range("blocks", 0, 8)]; *k; ++k) m.block(*k);
    m.finish(true);
    sym_reach("longer");
}
HARNESS(without_maps) { sequence("PHGRUANEC"[sym_range("block", 0, 8)], BOUND(2, 3), false); }
