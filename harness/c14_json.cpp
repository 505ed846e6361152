// C14: objects written as JSON text read back identical; damaged texts are rejected, never crash.
#include "storage_sections.hpp"
#include <dal/storage/json.hpp>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <sys/stat.h>

namespace {
    void Compare(mc::Ctx_& x, const Storable_& o, const Obj_& back, const char* how, const std::string& text) {
        x.Step();
        const std::string a = Describe(o), b = back ? Describe(*back) : std::string("nothing");
        if (a != b)
            x.Fail("identity", "%s reads back as\n%s\ninstead of\n%s\nfrom\n%s", how, b.substr(0, 1500).c_str(), a.substr(0, 1500).c_str(), text.substr(0, 1500).c_str());
        auto p = dynamic_cast<const PseudoRSG_*>(&o), q = dynamic_cast<const PseudoRSG_*>(back.get());
        if (p) {
            Vector_<> u(p->NDim()), v(p->NDim());
            for (int i = 0; i < 3; ++i) {
                p->FillNormal(&u);
                q->FillNormal(&v);
                if (u != v)
                    x.Fail("identity", "a read-back generator draws other numbers");
            }
        }
    }
    void RoundTrip(mc::Ctx_& x, const Storable_& o) {
        String_ text;
        Obj_ back;
        try {
            text = JSON::WriteString(o);
            back = JSON::ReadString(text, true);
        } catch (const std::exception& e) {
            x.Fail("identity", "refused: %s\n%s\nfrom\n%s", e.what(), Describe(o).substr(0, 1500).c_str(), text.c_str());
        }
        Compare(x, o, back, "text", std::string(text.begin(), text.end()));
    }
    void RoundTripFile(mc::Ctx_& x, const Storable_& o) {
        const String_ f(("/tmp/vf-c14-" + std::to_string(getpid()) + ".json").c_str());
        Obj_ back;
        try {
            JSON::WriteFile(o, f);
            back = JSON::ReadFile(f, true);
            unlink(f.c_str());
        } catch (const std::exception& e) {
            unlink(f.c_str());
            x.Fail("identity", "file refused: %s\n%s", e.what(), Describe(o).substr(0, 1500).c_str());
        }
        Compare(x, o, back, "file", "");
    }
    struct Init_ {
        Init_() {
            mc::g_init = [] { Archive::Register("Probe", &g_probeReader); };
        }
    } s_init;

    // stored texts to damage
    const std::vector<std::string>& Corpus() {
        static const std::vector<std::string> c = [] {
            std::vector<Obj_> o;
            o.push_back(Leaf(0)), o.push_back(Leaf(1));
            Matrix_<Cell_> m(2, 2);
            m(0, 0) = 1.5, m(0, 1) = "t\"", m(1, 0) = Date_(2024, 2, 29), m(1, 1) = Cell_("2024-01-01");
            o.push_back(Obj_(new Box_("b", m)));
            o.push_back(Obj_(new Fixings_("IBM", {{DateTime_(Date_(2024, 1, 1), 0.5), 3.0}, {DateTime_(Date_(2024, 1, 2), 0.0), 2.0}})));
            std::multimap<String_, Obj_> in;
            in.insert({"a", o[0]}), in.insert({"b", o[0]}), in.insert({"c", o[1]});
            o.push_back(Obj_(new Bag_("bag", in)));
            std::unique_ptr<Report_> rep(new Report_("r", {{"x", 2, {"l"}}, {"y", 1, {}}}));
            rep->SetAll({1.0, 2.0});
            o.push_back(Obj_(rep.release()));
            o.push_back(Obj_(new PseudoRSG_("MRG32", 7, 2, true)));
            Handle_<DiscountCurve_> base(NewDiscountPWLF("base", PiecewiseLinear_({Date_(2024, 1, 1)}, {0.01}, {0.02})));
            o.push_back(Obj_(NewDiscountPWLF("top", PiecewiseLinear_({Date_(2024, 1, 1), Date_(2025, 1, 1)}, {0.01, 0.0}, {0.02, 0.0}), base)));
            o.push_back(Obj_(new Interp2Linear_("bi", {0.0, 1.0}, {2.0}, Matrix_<>(2, 1, 0.5))));
            o.push_back(Obj_(Interp::NewCubic("cu", {0.0, 1.0, 2.0}, {1.0, 0.0, 3.0}, Interp::Boundary_(2, 0.0), Interp::Boundary_(2, 0.0))));
            o.push_back(Obj_(new Script::ScriptProductData_("p", {Cell_(Date_(2025, 1, 1)), Cell_("K")}, {"x = 1", "2.0"})));
            o.push_back(Obj_(new DupireModelData_("d", 1, 2, 3, {1.0, 2.0}, {1.0}, Matrix_<>(2, 1, 0.1))));
            o.push_back(Obj_(new PiecewiseConstant_({Date_(2024, 1, 1), Date_(2024, 5, 1)}, {1.0, 2.0})));
            std::unique_ptr<Probe_> p(new Probe_("pr"));
            p->vd = {1.5}, p->vi = {7}, p->vb = {true}, p->vs = {"s"}, p->vt = {Date_(2024, 1, 1)}, p->vm = {DateTime_(Date_(2024, 1, 1), 0.25)}, p->vc = {Cell_("c"), Cell_()};
            p->md = Matrix_<>(1, 2, 0.5), p->ms = Matrix_<String_>(2, 1, "m"), p->mc = Matrix_<Cell_>(1, 1, Cell_(2.5));
            p->dict.Insert("K", Cell_(2.0));
            p->subs = {o[0], o[0]};
            o.push_back(Obj_(p.release()));
            std::vector<std::string> r;
            for (const auto& e : o) {
                const String_ t = JSON::WriteString(*e);
                r.push_back(std::string(t.begin(), t.end()));
            }
            return r;
        }();
        return c;
    }
    // either refused, or a proper object that can be stored again
    void Judge(mc::Ctx_& x, const std::string& text) {
        x.Step();
        Obj_ o;
        try {
            o = JSON::ReadString(String_(text), true);
        } catch (const std::exception&) {
            return;
        }
        if (!o)
            x.Fail("damaged", "nothing is returned for\n%s", text.c_str());
        x.Outcome(std::hash<std::string>()(Describe(*o)));
        RoundTrip(x, *o);
    }
} // namespace

MC_SECTION("truncated texts", "every prefix and every suffix of 14 stored texts, and each with one more bracket, brace, quote or comma", 1) {
    const std::string t = x.Pick(Corpus());
    for (size_t i = 0; i < t.size(); ++i) {
        Judge(x, t.substr(0, i));
        Judge(x, t.substr(i + 1));
        bool threw = false;
        try {
            JSON::ReadString(String_(t.substr(0, i)), true);
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw)
            x.Fail("damaged", "the first %zu characters are accepted of\n%s", i, t.c_str());
    }
    for (const char* e : {"]", "}", "\"", ",", "x", "{}", "\\"}) {
        bool threw = false;
        try {
            JSON::ReadString(String_(t + e), true);
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw)
            x.Fail("damaged", "followed by %s is accepted:\n%s", e, t.c_str());
    }
}

MC_SECTION("one character changed", "each character of 14 stored texts deleted, doubled, or replaced by each of 16 (thorough: pairs of neighbours too)", 2) {
    const std::string t = x.Pick(Corpus());
    const int part = x.Choose(8);
    static const char by[] = "{}[]\",:\\0-9.e $~n";
    for (size_t i = part; i < t.size(); i += 8) {
        std::string u = t;
        u.erase(i, 1);
        Judge(x, u);
        u = t;
        u.insert(i, 1, t[i]);
        Judge(x, u);
        for (const char* c = by; *c; ++c) {
            u = t;
            u[i] = *c;
            Judge(x, u);
            for (const char* d = by; x.thorough_ && *d && i + 1 < t.size(); ++d) {
                u[i + 1] = *d;
                Judge(x, u);
            }
        }
    }
}

namespace {
    // all values inside a document, in order
    void Collect(rapidjson::Value& v, std::vector<rapidjson::Value*>& out) {
        out.push_back(&v);
        if (v.IsObject())
            for (auto& m : v.GetObject())
                Collect(m.value, out);
        else if (v.IsArray())
            for (auto& e : v.GetArray())
                Collect(e, out);
    }
    std::string Text(const rapidjson::Document& d) {
        rapidjson::StringBuffer b;
        rapidjson::Writer<rapidjson::StringBuffer> w(b);
        d.Accept(w);
        return std::string(b.GetString(), b.GetSize());
    }
} // namespace

MC_SECTION("values of another kind", "each value anywhere in 14 stored texts replaced by each of 14 other values; each member of each object removed or renamed", 2) {
    const std::string t = x.Pick(Corpus());
    static const std::vector<std::string> by = {"null", "true", "1", "-1", "0.5", "1e300", "3000000000", "\"\"", "\"x\"", "\"2024-01-01\"", "[]", "{}", "[1,[2]]", "{\"$tag\": \"1\"}"};
    rapidjson::Document d;
    d.Parse<rapidjson::kParseFullPrecisionFlag>(t.c_str());
    std::vector<rapidjson::Value*> all;
    Collect(d, all);
    const int where = x.Choose((int)all.size());
    for (const auto& r : by) {
        rapidjson::Document e;
        e.Parse(t.c_str());
        std::vector<rapidjson::Value*> w;
        Collect(e, w);
        rapidjson::Document nv(&e.GetAllocator());
        nv.Parse(r.c_str());
        *w[where] = static_cast<rapidjson::Value&>(nv);
        Judge(x, Text(e));
    }
    if (all[where]->IsObject())
        for (auto& m : all[where]->GetObject())
            for (int what = 0; what < 2; ++what) {
                rapidjson::Document e;
                e.Parse(t.c_str());
                std::vector<rapidjson::Value*> w;
                Collect(e, w);
                auto it = w[where]->FindMember(m.name.GetString());
                if (what)
                    it->name.SetString("other", e.GetAllocator());
                else
                    w[where]->RemoveMember(it);
                Judge(x, Text(e));
            }
}

MC_SECTION("texts written by hand", "objects nested in one another without reference tags stay different; any layout and member order is read; numbers may be written as integers; nesting 1..200000 deep is refused or read", 1) {
    const int what = x.Choose(5);
    if (what == 0) {
        std::multimap<String_, Obj_> m;
        for (int i = 0, n = 1 + x.Choose(4); i < n; ++i)
            m.insert({String_(1, 'a' + i), Leaf(x.Choose(4))});
        Bag_ bag("b", m);
        std::string t(JSON::WriteString(bag).c_str()), u;
        for (size_t i = 0; i < t.size();) // drop the tags
            if (t.compare(i, 6, "\"$tag\"") == 0)
                i = t.find(',', i) + 1;
            else
                u += t[i++];
        try {
            Compare(x, bag, JSON::ReadString(String_(u), true), "text without tags", u);
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception& e) {
            x.Fail("by hand", "refused: %s\n%s", e.what(), u.c_str());
        }
    } else if (what == 1) {
        static const char* ways[] = {"{\"~type\":\"BSModelData_v1\",\"spot\":1,\"vol\":2,\"rate\":0,\"div\":3000000000}", " {\n\t\"div\": 3e9 ,\"rate\":0.0,\r\n\"vol\":2.00,\"spot\":10e-1,\"~type\":\"BSModelData_v1\",\"extra\":[{}]} \n"};
        const char* w = ways[x.Choose(2)];
        RoundTrip(x, BSModelData_("", 1, 2, 0, 3e9));
        Compare(x, BSModelData_("", 1, 2, 0, 3e9), JSON::ReadString(w, true), "hand-written text", w);
    } else if (what == 2) {
        static const int deep[] = {1, 10, 1000, 200000};
        const int n = deep[x.Choose(4)];
        const char* open[] = {"[", "{\"a\":", "{\"~type\":\"Bag\",\"contents0\":"};
        const char* close[] = {"]", "}", "}"};
        const int k = x.Choose(2);
        std::string t;
        for (int i = 0; i < n; ++i)
            t += open[k];
        t += "1";
        for (int i = 0; i < n; ++i)
            t += close[k];
        Judge(x, t);
    } else if (what == 3) {
        static const char* bad[] = {"", " ", "null", "1", "\"x\"", "[]", "{}", "{\"~type\":\"Nonsense\"}", "{\"~type\":1}", "{\"~type\":\"\"}", "[{\"~type\":\"Bag\"}]", "{\"~type\":\"BSModelData_v1\"}", "{\"$tag\":\"1\"}", "{\"~type\":\"Bag\",\"contents0\":{\"$tag\":\"1\"}}",
                                    "{\"~type\":\"DiscountPWLF_v1\",\"knotDates\":[\"2024-01-01\"],\"leftVals\":[1],\"rightVals\":[1],\"base\":{\"~type\":\"Bag\"}}", "{\"~type\":\"PseudoRSG_v1\",\"name\":\"MRG32\",\"seed\":1,\"n_dim\":0,\"precise\":true}", "{\"~type\":\"PseudoRSG_v1\",\"name\":\"MRG32\",\"seed\":1e20,\"n_dim\":1,\"precise\":true}",
                                    "{\"~type\":\"PseudoRSG_v1\",\"name\":\"MRG32\",\"seed\":1,\"n_dim\":-3,\"precise\":true}", "{\"~type\":\"Fixings\",\"fixings\":[1],\"fixing_times\":[]}", "{\"~type\":\"Bag\",\"keys\":[\"a\"]}", "{\"~type\":\"Box\",\"contents\":{\"rows\":2,\"cols\":1,\"vals\":[1]}}", "{\"~type\":\"Box\",\"contents\":{\"cols\":-1,\"vals\":[]}}",
                                    "{\"~type\":\"Interp1Linear_v1\",\"x\":[1,0],\"f\":[1,2]}", "{\"~type\":\"Interp1Linear_v1\",\"x\":[],\"f\":[]}", "{\"~type\":\"Cubic1\",\"x\":[0,1],\"f\":[1,2],\"fpp\":[0]}"};
        const std::string t = bad[x.Choose(sizeof bad / sizeof *bad)];
        bool threw = false;
        try {
            JSON::ReadString(String_(t), true);
        } catch (const std::exception&) {
            threw = true;
        }
        x.Step();
        if (!threw)
            x.Fail("damaged", "accepted: %s", t.c_str());
    } else {
        bool threw = false;
        try {
            JSON::WriteFile(*Leaf(0), "/nonexistent/dir/file.json");
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw)
            x.Fail("damaged", "a failure to write the file is not reported");
        threw = false;
        try {
            JSON::ReadFile("/nonexistent/dir/file.json", true);
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw)
            x.Fail("damaged", "a missing file is not reported");
        x.Step();
    }
}
