// C07: dictionary discovery in simulated directory trees against an executable model
#include "world.hpp"
#include "scen.hpp"
#include <algorithm>
using namespace sim;
static std::string num(uint64_t v) { return std::to_string(v); }

// ---------------------------------------------------------------- model
struct Tag { std::string lang, script, priv; std::string text() const { return lang + (script.empty() ? "" : "-" + script) + (priv.empty() ? "" : "-x-" + priv); } };
static std::string low(std::string s) { for (auto & c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static std::string noHyphen(std::string s) { s.erase(std::remove(s.begin(), s.end(), '-'), s.end()); return s; }
static Tag parseTag(const std::string & s) {
	Tag t;
	std::string head = s;
	size_t x = s.find("-x-");
	if (x != std::string::npos) { head = s.substr(0, x); t.priv = low(noHyphen(s.substr(x + 3))); }
	std::string l = head;
	size_t d = head.find('-');
	if (d != std::string::npos) { l = head.substr(0, d); std::string sc = head.substr(d + 1); if (sc.size() == 4) t.script = sc; }
	size_t u = l.find('_');
	if (u != std::string::npos) l = l.substr(0, u);
	t.lang = low(l);
	return t;
}
static bool matches(const Tag & want, const Tag & have) {
	if (want.lang != have.lang || want.script != have.script) return false;
	if (want.priv == "standard" && have.priv.empty()) return true;
	return want.priv.empty() || want.priv == have.priv;
}
struct MNode { bool dir = false, deny = false; std::string data; };
struct World {
	std::map<std::string, MNode> t;
	std::map<std::string, std::string> env;
	std::string home = "/home/user", cwd = "/work";
	std::string abs(const std::string & p0) const {
		std::string p = p0;
		if (p.empty() || p[0] != '/') p = cwd + "/" + p;
		std::vector<std::string> parts;
		std::string cur;
		for (size_t i = 0; i <= p.size(); i++) {
			if (i == p.size() || p[i] == '/') {
				if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
				else if (!cur.empty() && cur != ".") parts.push_back(cur);
				cur.clear();
			}
			else cur += p[i];
		}
		std::string r;
		for (auto & x : parts) r += "/" + x;
		return r.empty() ? "/" : r;
	}
	void mkdirs(const std::string & p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { auto & n = t[p.substr(0, i)]; n.dir = true; } }
	void apply(const Op & o) {
		const std::string & k = o.a[1];
		if (k == "remove") { for (auto it = t.begin(); it != t.end();) { if (it->first == o.a[2] || it->first.compare(0, o.a[2].size() + 1, o.a[2] + "/") == 0) it = t.erase(it); else ++it; } }
		else if (k == "mkdir") mkdirs(abs(o.a[2]));
		else if (k == "put" || k == "tiny") { std::string p = abs(o.a[2]); mkdirs(p.substr(0, p.rfind('/'))); MNode n; n.data = k == "put" ? o.a[3] : "#" + o.a[3]; t[p] = n; }
		else if (k == "deny") { auto it = t.find(o.a[2]); if (it != t.end()) it->second.deny = true; }
		else if (k == "env") env[o.a[2]] = o.a[3];
		else if (k == "unenv") env.erase(o.a[2]);
		else if (k == "home") home = o.a[2];
		else if (k == "chdir") { cwd = o.a[2]; mkdirs(cwd); }
	}
	void drop(const std::string & p) { Op o; o.a = {"fs", "remove", p}; apply(o); }
};
struct MDict { Tag tag; std::string desc, dir; bool def = false; };
static bool parseIndex(const std::string & s, Tag & tag, std::string & desc) {
	std::vector<std::string> lines;
	std::string cur;
	for (char c : s) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
	lines.push_back(cur);
	if (lines[0] != "Voikko-Dictionary-Format: 5") return false;
	tag = Tag();
	tag.lang = "fi";
	for (size_t i = 1; i < lines.size(); i++) {
		if (lines[i].compare(0, 10, "Language: ") == 0) tag = parseTag(lines[i].substr(10));
		else if (lines[i].compare(0, 13, "Description: ") == 0) desc = lines[i].substr(13);
	}
	return true;
}
static std::vector<std::string> locations(const World & w, const std::string & path, bool havePath) {
	std::vector<std::string> loc;
	if (havePath && !path.empty()) loc.push_back(path);
	auto split = [&](const std::string & s) {
		std::string cur;
		for (size_t i = 0; i < s.size(); i++) { if (s[i] == ':') { loc.push_back(cur); cur.clear(); } else cur += s[i]; }
		if (!cur.empty()) loc.push_back(cur);
	};
	auto e = w.env.find("VOIKKO_DICTIONARY_PATH");
	if (e != w.env.end()) split(e->second);
	if (!w.home.empty()) loc.push_back(w.home + "/.voikko");
	loc.push_back("/etc/voikko");
	split("/sys1:/sys2");
	return loc;
}
// searched more than once: a failure may hit any of the visits
static bool repeated(const World & w, const std::string & path, bool havePath) {
	std::set<std::string> s;
	for (auto & l : locations(w, path, havePath)) if (!s.insert(w.abs(l)).second) return true;
	return false;
}
// other: the world as it looks at the visit of all locations but one
static const World * otherWorld = nullptr;
static size_t oneVisit = 0;
static std::vector<MDict> discover(const World & w0, const std::string & path, bool havePath) {
	std::vector<std::string> loc = locations(w0, path, havePath);
	std::map<std::string, MDict> m;
	std::set<std::string> haveDef;
	for (size_t li = 0; li < loc.size(); li++) {
		const std::string & l = loc[li];
		const World & w = otherWorld && li != oneVisit ? *otherWorld : w0;
		std::string d = w.abs(l + "/5");
		auto dn = w.t.find(d);
		if (dn == w.t.end() || !dn->second.dir || dn->second.deny) continue;
		std::string pre = d + "/";
		for (auto it = w.t.lower_bound(pre); it != w.t.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
			std::string name = it->first.substr(pre.size());
			if (name.find('/') != std::string::npos || name.compare(0, 4, "mor-") != 0 || name.size() == 4) continue;
			auto ix = w.t.find(it->first + "/index.txt");
			if (ix == w.t.end() || ix->second.dir || ix->second.deny) continue;
			MDict md;
			if (!parseIndex(ix->second.data, md.tag, md.desc)) continue;
			md.dir = it->first;
			std::string tx = md.tag.text();
			if (md.tag.priv == "default" && haveDef.insert(md.tag.lang).second) md.def = true;
			if (!m.count(tx)) m[tx] = md;
		}
	}
	std::vector<MDict> front, back;
	for (auto & p : m) {
		const MDict & d = p.second;
		bool std11 = p.first.size() >= 11 && p.first.substr(p.first.size() - 11) == "-x-standard";
		if (d.def || (std11 && !haveDef.count(d.tag.lang))) front.insert(front.begin(), d);
		else back.push_back(d);
	}
	front.insert(front.end(), back.begin(), back.end());
	return front;
}
static std::string modelAnswer(const World & w, const Op & op) {
	const std::string & k = op.a[0];
	if (k == "listd") {
		std::string r;
		for (auto & d : discover(w, op.a[1], op.a[1] != "<null>")) r += "{" + d.tag.lang + "," + d.tag.script + "," + (d.tag.priv.empty() ? "standard" : d.tag.priv) + "," + d.desc + "}";
		return r;
	}
	if (k == "listl") {
		std::set<std::string> s;
		for (auto & d : discover(w, op.a[2], op.a[2] != "<null>")) s.insert(d.tag.lang + (d.tag.script.empty() ? "" : "-" + d.tag.script));
		std::string r = "[";
		for (auto & x : s) r += x + "|";
		return r + "]";
	}
	// sel tag path
	if (op.a[1] == "<null>") return "error";
	Tag want = parseTag(op.a[1]);
	auto ds = discover(w, op.a[2], op.a[2] != "<null>");
	if (want.priv.empty() || want.priv == "default") {
		auto e = w.env.find("VOIKKO_DICTIONARY");
		if (e != w.env.end()) want.priv = low(noHyphen(e->second));
	}
	for (auto & d : ds) {
		if (!matches(want, d.tag)) continue;
		const World & lw = otherWorld ? *otherWorld : w;
		auto f = lw.t.find(d.dir + "/spl.vfst");
		if (f == lw.t.end() || f->second.dir || f->second.deny || f->second.data[0] != '#') return "error";
		return "selects " + f->second.data.substr(1);
	}
	return "error";
}

// ---------------------------------------------------------------- scenario
static const int TINY = 20;
static std::string tinyData[TINY];
struct DiscScenario : Scenario {
	std::string prop() const override { return "C07"; }
	void setup() override {
		commonSetup();
		for (int i = 0; i < TINY; i++) tinyData[i] = readFile(verifDir + "/data/tiny/" + num((uint64_t)i) + ".vfst");
	}
	void addDict(Case & c, Gen & g, const std::string & loc, int & n) {
		static const std::vector<std::string> tags = {"fi", "fi", "fi-x-standard", "fi-x-standard", "fi-x-default", "fi-x-default", "fi-x-vfst", "fi-x-abcde", "fi-x-medicine", "FI-x-Medicine", "fi_FI-x-foo", "fi-x-me-dicine", "sv", "sv-x-standard", "sv-x-default", "se-Latn", "se-Cyrl-x-default", "se-x-default", "se-Latn-x-standard", "fi-Latn-x-default", "fi-Latn", "smn-x-abc", "ab-x-defgh", "fi-FI", "x-standard", "fi-x-xstandard", "und"};
		static const std::vector<std::string> names = {"mor-a", "mor-b", "mor-c", "mor-standard", "mor-default", "mor-0", "mor-zz", "mor-mor-", "mor-A", "mor-.x"};
		std::string name = g.r.pick(names);
		if (g.r.chance(1, 14)) { static const std::vector<std::string> odd = {"mor-", "mor", "Mor-a", "xmor-a", ".mor-a", "amor-b"}; name = g.r.pick(odd); }
		std::string dir = loc + "/5/" + name;
		for (auto & o : c.ops) if (o.a[0] == "fs" && o.a.size() > 2 && (o.a[2] == dir || o.a[2].compare(0, dir.size() + 1, dir + "/") == 0)) { c.add(0, {"fs", "remove", dir}); break; }
		int id = n++ % TINY;
		std::string tag = g.r.pick(tags);
		std::string ix = "Voikko-Dictionary-Format: 5\n";
		switch (g.r.below(40)) {
			case 0: ix = "Voikko-Dictionary-Format: 4\n"; break;
			case 1: ix = "Voikko-Dictionary-Format: 5 \n"; break;
			case 2: ix = "\nVoikko-Dictionary-Format: 5\n"; break;
			case 3: ix = "Voikko-Dictionary-Format: 5\r\n"; break;
			case 4: ix = "Voikko-Dictionary-Format: 55\n"; break;
			case 5: ix = ""; break;
		}
		std::vector<std::string> rest = {"Description: d" + num((uint64_t)n), "Morphology-Backend: null", "Speller-Backend: vfst", "Suggestion-Backend: null", "Grammar-Backend: null"};
		if (!g.r.chance(1, 12)) rest.push_back("Language: " + tag);
		if (g.r.chance(1, 4)) rest.push_back("Copyright: someone");
		if (g.r.chance(1, 10)) rest.push_back(" Language: xx");
		if (g.r.chance(1, 10)) rest.push_back("");
		for (size_t i = rest.size(); i > 1; i--) if (g.r.chance(1, 2)) std::swap(rest[i - 1], rest[g.r.below(i)]);
		for (auto & l : rest) ix += l + "\n";
		if (g.r.chance(1, 4)) ix.pop_back();
		uint64_t broken = g.r.below(24);
		if (broken == 0) c.add(0, {"fs", "mkdir", dir + "/index.txt"});
		else if (broken == 1) c.add(0, {"fs", "mkdir", dir});
		else if (broken == 2) { c.add(0, {"fs", "put", dir + "/index.txt", ix}); c.add(0, {"fs", "deny", dir + "/index.txt"}); }
		else if (broken == 3) c.add(0, {"fs", "put", dir, ix});
		else if (broken == 4) c.add(0, {"fs", "put", dir + "/Index.txt", ix});
		else c.add(0, {"fs", "put", dir + "/index.txt", ix});
		if (broken != 3) {
			if (g.r.chance(1, 20)) {}
			else c.add(0, {"fs", "tiny", dir + "/spl.vfst", num((uint64_t)id)});
		}
	}
	void addQueries(Case & c, Gen & g, const std::vector<std::string> & paths, size_t n) {
		static const std::vector<std::string> want = {"fi", "fi", "fi", "fi-x-default", "fi-x-standard", "fi-x-vfst", "fi-x-abcde", "fi-x-medicine", "fi_FI", "FI", "sv", "sv-x-standard", "sv-x-default", "se", "se-Latn", "se-Cyrl", "se-x-default", "fi-Latn", "smn", "ab-x-defgh", "fi-FI", "fi-x-nonsuch", "", "<null>", "fi-x-Medi-cine", "und"};
		for (size_t i = 0; i < n; i++) {
			std::string path = g.r.chance(1, 4) ? "<null>" : g.r.pick(paths);
			uint64_t k = g.r.below(10);
			int id;
			if (k < 3) id = c.add(0, {"listd", path});
			else if (k < 4) { static const std::vector<std::string> l = {"s", "h", "g"}; id = c.add(0, {"listl", g.r.pick(l), path}); }
			else id = c.add(0, {"sel", g.r.pick(want), path});
			if (g.r.chance(1, 3)) {
				static const std::vector<int> kinds = {F_OPEN, F_OPEN, F_OPEN, F_READ_ERR, F_READ_SHORT, F_READ_SHORT, F_READ_SHORT, F_OPENDIR, F_OPENDIR, F_GETPW, F_MMAP, F_FSTAT};
				static const std::vector<int> errs = {5, 13, 24, 23, 12};
				int kd = g.r.pick(kinds);
				if (kd == F_READ_SHORT) {
					// an index file that fails (or only arrives in pieces) after its beginning was read
					uint64_t nth = 1 + g.r.below(10);
					c.faults.push_back(mkFault(kd, nth, 20 + (int)g.r.below(150), id));
					if (g.r.chance(3, 4)) c.faults.push_back(mkFault(F_READ_ERR, nth + 1, g.r.pick(errs), id));
				}
				else c.faults.push_back(mkFault(kd, 1 + g.r.below(kd == F_GETPW || kd == F_MMAP || kd == F_FSTAT ? 1 : 12), kd == F_GETPW ? 0 : g.r.pick(errs), id));
			}
		}
	}
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C07";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		c.add(0, {"fs", "remove", "/dict"});
		static const std::vector<std::string> locs = {"/p1", "/p2", "/e1", "/e2", "/home/user/.voikko", "/etc/voikko", "/sys1", "/sys2", "/work/rel", "/home/other/.voikko"};
		int n = 0;
		size_t count = 1 + g.r.below(thorough ? 24 : 14);
		for (size_t i = 0; i < count; i++) addDict(c, g, g.r.pick(locs), n);
		if (g.r.chance(1, 12)) addDict(c, g, "", n);
		auto noise = [&]() {
			std::string l = g.r.pick(locs);
			switch (g.r.below(8)) {
				case 0: c.add(0, {"fs", "put", l + "/3/x.zhfst", "not a zip"}); break;
				case 1: c.add(0, {"fs", "put", l + "/3/abcde", ""}); break;
				case 2: c.add(0, {"fs", "mkdir", l + "/3/y.zhfst"}); break;
				case 3: c.add(0, {"fs", "put", l + "/3/" + (g.r.chance(1, 2) ? ".zhfst" : "z.zhfst"), ""}); break;
				case 4: c.add(0, {"fs", "put", l + "/5/README", "hello"}); break;
				case 5: c.add(0, {"fs", "put", l + "/2/mor-standard/index.txt", "Voikko-Dictionary-Format: 2\n"}); break;
				case 6: c.add(0, {"fs", "mkdir", l + "/5"}); break;
				case 7: c.add(0, {"fs", "put", l + "/3/mor-a/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-three\n"}); break;
			}
		};
		for (size_t i = g.r.below(4); i > 0; i--) noise();
		static const std::vector<std::string> envs = {"/e1", "/e1:/e2", "/e2:/e1", "/none:/e1", ":/e1", "/e1:", "/e1::/e2", "", "rel", "/p1:/e1", "/e1/", "/e1:/e2/", "/e2/:/e1", "/none:/e1/", "/e1//:/e2", "/none/:/e2/"};
		auto envOp = [&]() {
			if (g.r.chance(2, 3)) c.add(0, {"fs", "env", "VOIKKO_DICTIONARY_PATH", g.r.pick(envs)});
			else c.add(0, {"fs", "unenv", "VOIKKO_DICTIONARY_PATH"});
		};
		if (g.r.chance(2, 3)) envOp();
		if (g.r.chance(1, 4)) { static const std::vector<std::string> v = {"standard", "vfst", "default", "medicine", "", "nonsuch", "Abc-de"}; c.add(0, {"fs", "env", "VOIKKO_DICTIONARY", g.r.pick(v)}); }
		if (g.r.chance(1, 6)) c.add(0, {"fs", "home", g.r.chance(1, 2) ? "/home/other" : ""});
		c.add(0, {"fs", "order", num(g.r.chance(1, 4) ? 0 : g.r.next() >> 1)});
		c.add(0, {"fs", "dtype", num(g.r.below(2))});
		static const std::vector<std::string> paths = {"/p1", "/p1", "/p2", "/p1/", "/none", "rel", "./rel", "../work/rel", "", "/e1"};
		addQueries(c, g, paths, 2 + g.r.below(5));
		size_t rounds = g.r.below(thorough ? 5 : 3);
		for (size_t i = 0; i < rounds; i++) {
			switch (g.r.below(7)) {
				case 0: case 1: c.add(0, {"fs", "order", num(g.r.next() >> 1)}); break;
				case 2: addDict(c, g, g.r.pick(locs), n); break;
				case 3: c.add(0, {"fs", "remove", g.r.pick(locs) + (g.r.chance(1, 2) ? "/5/mor-a" : "/5")}); break;
				case 4: envOp(); break;
				case 5: c.add(0, {"fs", "chdir", g.r.chance(1, 2) ? "/" : "/work"}); break;
				case 6: c.add(0, {"fs", "deny", g.r.pick(locs) + "/5"}); break;
			}
			addQueries(c, g, paths, 1 + g.r.below(4));
		}
		return c;
	}
	void exec(const Case & c, Out & o) override {
		std::set<int> faulty;
		for (auto & f : c.faults) faulty.insert(f.op);
		int hn = 0;
		for (auto & op : c.ops) {
			if (op.a[0] == "fs") {
				if (op.a[1] == "tiny") fsPut(op.a[2], tinyData[atoi(op.a[3].c_str()) % TINY]);
				else fsOp(op);
				o.res.push_back({op.id, "world"});
				continue;
			}
			bool fl = faulty.count(op.id) > 0;
			beginOp(fl ? op.id : -1);
			arm(fl);
			size_t f0 = firedPaths.size();
			Api api;
			std::string r;
			if (op.a[0] == "sel") {
				Op x;
				x.id = op.id;
				std::string h = "h" + std::to_string(hn++);
				x.a = {"init", h, op.a[1], op.a[2]};
				r = api.doOp(x);
				arm(false);
				if (r == "ok") {
					r = "selects";
					for (int i = 0; i < TINY; i++) {
						x.a = {"spell", h, std::string(3, (char)('a' + i))};
						if (api.doOp(x) == "1") r += " " + std::to_string(i);
					}
					x.a = {"term", h};
					api.doOp(x);
				}
			}
			else r = api.doOp(op);
			arm(false);
			o.res.push_back({op.id, r});
			std::string fp;
			for (size_t i = f0; i < firedPaths.size(); i++) fp += firedPaths[i] + "\n";
			if (!fp.empty()) o.kv["fired" + std::to_string(op.id)] = fp;
		}
		if (openFds() || openMaps()) violation("file-leak", describeFds());
	}
	Verdict check(const Case & c, const Out & o) override {
		World w;
		w.mkdirs("/work"); w.mkdirs("/home/user"); w.mkdirs("/tmp"); w.mkdirs("/dict");
		for (auto & op : c.ops) {
			if (op.a[0] == "fs") { w.apply(op); continue; }
			const std::string * r = o.find(op.id);
			if (!r) return Verdict{"HARNESS", "no result"};
			if (r->compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + ": " + *r};
			World x = w;
			auto f = o.kv.find("fired" + std::to_string(op.id));
			bool loadFault = false;
			if (f != o.kv.end()) {
				std::string l;
				for (char ch : f->second) {
					if (ch != '\n') { l += ch; continue; }
					size_t sp = l.find(' ');
					std::string p = l.substr(sp + 1);
					if (l.compare(0, sp, "read_short") == 0) {}
					else if (l.compare(0, sp, "getpw") == 0) x.home = "";
					else if (p.size() > 9 && p.compare(p.size() - 9, 9, "/spl.vfst") == 0) { x.t[p].deny = true; loadFault = true; }
					else if (x.t.count(p)) x.drop(p);
					l.clear();
				}
			}
			std::string want = modelAnswer(x, op);
			std::string got = *r;
			if (op.a[0] == "sel" && got.compare(0, 7, "error: ") == 0 && got.size() > 7) got = "error";
			if (got != want && f != o.kv.end() && !loadFault) {
				const std::string & path = op.a[op.a[0] == "listd" ? 1 : 2];
				if (repeated(x, path, path != "<null>")) {
					World y = w;
					y.home = x.home;
					otherWorld = &y;
					bool ok = false;
					for (oneVisit = 0; oneVisit < locations(x, path, path != "<null>").size() && !ok; oneVisit++) ok = got == modelAnswer(x, op);
					otherWorld = nullptr;
					if (ok) continue;
				}
			}
			if (got != want) {
				// (minimisation must not take away the removal of a directory that is replaced by a file)
				for (auto & p : w.t) { size_t sl = p.first.rfind('/'); if (sl > 0 && sl != std::string::npos) { auto pa = w.t.find(p.first.substr(0, sl)); if (pa == w.t.end() || !pa->second.dir) return Verdict(); } }
				std::string q;
				for (size_t i = 0; i < op.a.size(); i++) q += (i ? " " : "") + op.a[i];
				return Verdict{op.a[0] == "sel" ? "wrong-selection" : "wrong-listing", "operation " + std::to_string(op.id) + " (" + q + ")" + (f != o.kv.end() ? " with failing " + f->second.substr(0, f->second.size() - 1) : "") + ": got '" + got.substr(0, 300) + "', the search rules give '" + want.substr(0, 300) + "'"};
			}
		}
		return Verdict();
	}
	bool nontrivial(const Case &, const Out & o) override { for (auto & r : o.res) if (r.second.compare(0, 1, "{") == 0 || r.second.compare(0, 7, "selects") == 0) return true; return false; }
	std::string rule() const override { return "random trees of 1-24 small dictionaries over ten locations (caller path, environment, home, /etc, system paths; relative and odd paths), broken and unreadable entries, seeded directory enumeration order and entry types, environment changes, failures of open, read (also after the beginning of a file), opendir, user database and loading during listings and initialisations; listings and the dictionary each tag selects (recognised by the one word it accepts) compared with a model; non-trivial: some dictionary was listed or selected"; }
	std::string components() const override { return "real: all of libvoikko (unmodified sources, instrumented), libhfstospell, libarchive, libstdc++, glibc; simulated: file system, directory order, environment, user database, heap"; }
};
Scenario * makeC07() { return new DiscScenario(); }
