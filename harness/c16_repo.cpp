// C16: the object repository is a map of live handles for all histories.
// Every sequence of additions (all overwrite rules), erasures by object, list and pattern is run on the real repository and on
// a list of (tag, object) pairs; after every step the whole observable state (size, every tag ever returned, searches) is compared.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/cell.hpp>
#include <regex>
#include <map>
using namespace Dal;
namespace Dal {
    void Repository_Erase(const Vector_<Handle_<Storable_>>& objects, int* num_erased);
}

namespace {
    using Obj_ = Handle_<Storable_>;
    std::vector<Obj_>& Objects() {
        static std::vector<Obj_> o;
        if (o.empty()) {
            auto box = [](const char* n) { o.push_back(Obj_(new Box_(n, Matrix_<Cell_>(1, 1)))); };
            auto bag = [](const char* n) { o.push_back(Obj_(new Bag_(n, Bag_::map_t()))); };
            box("a");
            box("A");
            box("a~b");
            bag("a");
            box("");
            bag("");
            box("b");
            box("ab");
            box("a~");
        }
        return o;
    }
    bool Ci(const String_& l, const String_& r) {
        if (l.size() != r.size())
            return false;
        for (size_t i = 0; i < l.size(); ++i)
            if (tolower(l[i]) != tolower(r[i]))
                return false;
        return true;
    }
    const char* RULES[4] = {"NONE", "NAME_NONEMPTY", "NAME", "TYPE"};
    const char* PATTERNS[] = {"", "~Box~", "~a~", "^~Bag", "b", "nosuch", "~a~b~0x", "B"};
    struct Model_ {
        std::vector<std::pair<std::string, int>> live; // tag, object
        std::map<int, std::string> tagOf;              // every tag ever returned
        template <class P_> int Erase(P_ p) {
            int n = 0;
            for (auto it = live.begin(); it != live.end();)
                if (p(*it))
                    it = live.erase(it), ++n;
                else
                    ++it;
            return n;
        }
        bool Live(int o) const {
            for (auto& l : live)
                if (l.second == o)
                    return true;
            return false;
        }
    };
    void Check(mc::Ctx_& x, Model_& m, const std::string& hist) {
        ObjectAccess_ r;
        x.Step();
        if (r.Size() != (int)m.live.size())
            x.Fail("size", "%d objects instead of %zu after%s", r.Size(), m.live.size(), hist.c_str());
        uint64_t h = 17;
        for (auto& t : m.tagOf) {
            auto f = r.Fetch(String_(t.second), true);
            const bool live = m.Live(t.first);
            h = mc::Mix(h, t.first * 2 + live);
            if ((f.get() != nullptr) != live || (live && f.get() != Objects()[t.first].get()))
                x.Fail("fetch", "fetching object %d gives %s after%s", t.first, !f.get() ? "nothing" : live ? "another object" : "an erased object", hist.c_str());
            if (!live) {
                bool threw = false;
                try {
                    r.Fetch(String_(t.second));
                } catch (const std::exception&) {
                    threw = true;
                }
                if (!threw)
                    x.Fail("fetch", "an unknown tag is accepted after%s", hist.c_str());
            }
        }
        x.State(h);
    }
    void CheckFind(mc::Ctx_& x, Model_& m, const std::string& hist) {
        ObjectAccess_ r;
        for (const char* p : PATTERNS) {
            const std::regex re(p);
            std::multiset<const Storable_*> want, got;
            for (auto& l : m.live)
                if (std::regex_search(l.first, re))
                    want.insert(Objects()[l.second].get());
            for (auto& g : r.Find(p))
                got.insert(g.get());
            if (want != got)
                x.Fail("find", "searching '%s' finds %zu objects instead of %zu after%s", p, got.size(), want.size(), hist.c_str());
        }
        bool threw = false;
        try {
            (void)r.Find("(");
        } catch (const std::exception&) {
            threw = true;
        }
        try {
            (void)r.Erase("[");
            threw = false;
        } catch (const std::exception&) {
        }
        try {
            (void)r.Add(Obj_(), RepositoryErase_("NAME"));
            threw = false;
        } catch (const std::exception&) {
        }
        if (!threw)
            x.Fail("rejected", "an invalid pattern or a null object is accepted");
        Check(x, m, hist + " and rejected requests");
    }
    void Op(mc::Ctx_& x, Model_& m, int nObj, int nPat, std::string& hist) {
        ObjectAccess_ r;
        auto& O = Objects();
        const int k = x.Choose(nObj * 4 + nObj + nPat + 2);
        if (k < nObj * 4) {
            const int o = k / 4, rule = k % 4;
            const auto& s = O[o];
            hist += " add " + std::to_string(o) + " (" + s->type_.c_str() + " '" + s->name_.c_str() + "') " + RULES[rule];
            const String_ t = r.Add(s, RepositoryErase_(RULES[rule]));
            if (rule == 3)
                m.Erase([&](auto& l) { return Ci(O[l.second]->type_, s->type_); });
            else if (rule == 2 || (rule == 1 && !s->name_.empty()))
                m.Erase([&](auto& l) { return Ci(O[l.second]->type_, s->type_) && Ci(O[l.second]->name_, s->name_); });
            if (!m.Live(o))
                m.live.push_back({t.c_str(), o});
            if (m.tagOf.count(o) && m.tagOf[o] != t.c_str())
                x.Fail("tag", "a different tag for the same object after%s", hist.c_str());
            for (auto& p : m.tagOf)
                if (p.first != o && Ci(String_(p.second), t))
                    x.Fail("tag", "two objects share the tag %s after%s", t.c_str(), hist.c_str());
            m.tagOf[o] = t.c_str();
        } else if (k < nObj * 5) {
            const int o = k - nObj * 4;
            hist += " erase " + std::to_string(o);
            const bool was = m.Live(o);
            if (r.Erase(*O[o]) != was)
                x.Fail("erase", "erasing an object reports %s after%s", was ? "nothing" : "success", hist.c_str());
            m.Erase([&](auto& l) { return l.second == o; });
        } else if (k < nObj * 5 + nPat) {
            const char* p = PATTERNS[k - nObj * 5];
            hist += std::string(" erase '") + p + "'";
            const std::regex re(p);
            const int n = m.Erase([&](auto& l) { return std::regex_search(l.first, re); });
            const int g = r.Erase(String_(p));
            if (n != g)
                x.Fail("erase", "%d objects erased instead of %d after%s", g, n, hist.c_str());
        } else {
            const int w = k - nObj * 5 - nPat;
            Vector_<Obj_> v;
            int n = 0, g = -1;
            for (int o : w ? std::vector<int>{0, 2, 0} : std::vector<int>{}) {
                v.push_back(O[o]);
                n += m.Erase([&](auto& l) { return l.second == o; });
            }
            hist += " erase list of " + std::to_string(v.size());
            Repository_Erase(v, &g);
            if (n != g)
                x.Fail("erase", "%d objects erased instead of %d after%s", g, n, hist.c_str());
        }
    }
    void Run(mc::Ctx_& x, int depth, int nObj, int nPat) {
        (void)ObjectAccess_().Erase(String_(""));
        Model_ m;
        std::string hist;
        for (int i = 0; i < depth; ++i) {
            Op(x, m, nObj, nPat, hist);
            Check(x, m, hist);
        }
        CheckFind(x, m, hist);
        // whatever is left is found, fetched and erased object by object
        for (auto l : std::vector<std::pair<std::string, int>>(m.live)) {
            (void)ObjectAccess_().Erase(*Objects()[l.second]);
            m.Erase([&](auto& q) { return q.second == l.second; });
            Check(x, m, hist + " erase all");
        }
    }
} // namespace
MC_SECTION("histories", "all sequences of 3 operations (thorough 4) over 9 objects of 2 types (names equal but for case, empty, prefixes of each other, containing separators), 4 overwrite rules, erasing by object, by list and by 8 patterns", 2) { Run(x, x.thorough_ ? 4 : 3, 9, 8); }
MC_SECTION("long histories", "all sequences of 4 operations (thorough 5) over 3 boxes named 'a', 'A', 'a~b' and a bag 'a', 4 rules, by object, list and 3 patterns", 2) { Run(x, x.thorough_ ? 5 : 4, 4, 3); }
// ---- many objects: the k-th operation acts on object f(k) of a pool, with a pattern of names
MC_SECTION("many objects", "10, 100, 400 and 1500 additions over pools of as many, half as many or 7 boxes and bags x names distinct, repeated or empty x 4 overwrite rules, then erasing every object, every second, by list or by pattern: size and every tag compared after each tenth of the operations", 4) {
    static const int NS[] = {10, 100, 400, 1500};
    const int n = NS[x.Choose(4)], pool = x.Choose(3), names = x.Choose(3), rule = x.Choose(4), how = x.Choose(4);
    const int np = pool == 0 ? n : pool == 1 ? n / 2 : 7;
    (void)ObjectAccess_().Erase(String_(""));
    std::vector<Obj_> os;
    for (int i = 0; i < np; ++i) {
        const String_ name(names == 0 ? "n" + std::to_string(i) + (i % 5 ? "" : "odd") : names == 1 ? std::string(i % 2 ? "Rep" : "rEP") + std::to_string(i % 6) : std::string());
        os.push_back(i % 3 ? Obj_(new Box_(name, Matrix_<Cell_>(1, 1))) : Obj_(new Bag_(name, Bag_::map_t())));
    }
    std::map<int, std::string> tags;
    std::set<int> live;
    ObjectAccess_ r;
    auto check = [&](const char* when, int k) {
        x.Step();
        if (r.Size() != (int)live.size())
            x.Fail("size", "%d objects instead of %zu after %d of %d %s", r.Size(), live.size(), k, n, when);
        for (auto& t : tags) {
            auto f = r.Fetch(String_(t.second), true);
            if (live.count(t.first) ? f.get() != os[t.first].get() : f.get() != nullptr)
                x.Fail("fetch", "object %d of %d after %d %s", t.first, np, k, when);
        }
    };
    const int tenth = std::max(1, n / 10);
    for (int k = 0; k < n; ++k) {
        const int o = (k * 5 + k / np) % np;
        const String_ t = r.Add(os[o], RepositoryErase_(RULES[rule]));
        for (auto it = live.begin(); it != live.end();) {
            const bool type = Ci(os[*it]->type_, os[o]->type_), name = Ci(os[*it]->name_, os[o]->name_);
            if (rule == 3 ? type : type && name && (rule == 2 || (rule == 1 && !os[o]->name_.empty())))
                it = live.erase(it);
            else
                ++it;
        }
        live.insert(o);
        if (tags.count(o) && tags[o] != t.c_str())
            x.Fail("tag", "a different tag for the same object");
        tags[o] = t.c_str();
        if (k % tenth == tenth - 1)
            check("additions", k + 1);
    }
    std::set<std::string> seen;
    for (auto& t : tags) {
        std::string l = t.second;
        for (auto& ch : l)
            ch = tolower(ch);
        if (!seen.insert(l).second)
            x.Fail("tag", "two objects share the tag %s", t.second.c_str());
    }
    for (const char* p : {"", "~Bag~", "odd", "Rep3", "n1"}) {
        std::multiset<const Storable_*> want, got;
        const std::regex re(p);
        for (int o : live)
            if (std::regex_search(tags[o], re))
                want.insert(os[o].get());
        for (auto& g : r.Find(p))
            got.insert(g.get());
        if (want != got)
            x.Fail("find", "searching '%s' among %zu finds %zu instead of %zu", p, live.size(), got.size(), want.size());
    }
    if (how < 2) {
        int k = 0;
        for (int o = 0; o < np; o += how + 1) {
            if (r.Erase(*os[o]) != (live.count(o) != 0))
                x.Fail("erase", "erasing object %d", o);
            live.erase(o);
            if (++k % tenth == 0)
                check("erasures", k);
        }
    } else if (how == 2) {
        Vector_<Obj_> v;
        int want = 0, got = -1;
        for (int o = 0; o < np; o += 3) {
            v.push_back(os[o]);
            want += live.erase(o);
        }
        Repository_Erase(v, &got);
        if (want != got)
            x.Fail("erase", "%d objects erased by list instead of %d", got, want);
    } else {
        int want = 0;
        for (auto it = live.begin(); it != live.end();)
            if (tags[*it].find("1") != std::string::npos)
                it = live.erase(it), ++want;
            else
                ++it;
        const int got = r.Erase(String_("1"));
        if (want != got)
            x.Fail("erase", "%d objects erased by pattern instead of %d", got, want);
    }
    check("erasures", np);
    x.State(mc::Mix(n * 64 + pool * 16 + names * 4 + rule, live.size()));
    (void)r.Erase(String_(""));
}
