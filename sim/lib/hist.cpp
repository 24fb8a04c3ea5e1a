// C02, C03: one handle, long histories, compared with fresh handles.
#include "hist.hpp"
#include "scen.hpp"
#include <algorithm>
#include <wctype.h>
using namespace sim;

std::string tagOf(const std::string & dict) { return "fi-x-" + dict; }

bool isQuery(const std::string & k) {
	static const std::set<std::string> q = {"spell", "spellw", "sugg", "suggw", "hyph", "hyphw", "ins", "ana", "anaw", "attr", "tok", "sent", "tokc", "sentc", "gc", "gcn", "gcnc"};
	return q.count(k) > 0;
}
OptState defaultOptions() {
	OptState o;
	for (int b : boolOptions) o.b[b] = 0;
	o.b[VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE] = 1;
	o.b[VOIKKO_OPT_ACCEPT_ALL_UPPERCASE] = 1;
	o.b[VOIKKO_OPT_IGNORE_NONWORDS] = 1;
	o.b[VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS] = 1;
	o.minLen = 2;
	return o;
}
void OptTracker::apply(const Op & o, const std::string & result) {
	if (result == "skip") return;
	const std::string & k = o.a[0];
	if ((k == "init" || k == "attach") && result.compare(0, 2, "ok") == 0) { st[o.a[1]] = defaultOptions(); lang[o.a[1]] = {o.a[2], o.a[3]}; }
	else if (k == "bool") st[o.a[1]].b[atoi(o.a[2].c_str())] = atoi(o.a[3].c_str()) ? 1 : 0;
	else if (k == "int" && atoi(o.a[2].c_str()) == VOIKKO_MIN_HYPHENATED_WORD_LENGTH) st[o.a[1]].minLen = atoi(o.a[3].c_str());
}

// Creating a handle for a large dictionary costs more than most calls: the parent creates one of each and the runs
// inherit it through fork. A dictionary whose initialisation misbehaves is left to the runs, where it is reported.
static std::map<std::string, VoikkoHandle *> pre;
VoikkoHandle * takePre(const std::string & lang, const std::string & path) {
	auto it = pre.find(lang + " " + path + (secondLib ? " 2" : ""));
	if (it == pre.end()) return nullptr;
	VoikkoHandle * h = it->second;
	pre.erase(it);
	return h;
}
void preInit(bool both) {
	for (int second = 0; second < (both ? 2 : 1); second++) for (const char * d : {"standard", "vfstd", "bestd", "adapd", "okd", "wvfst", "bevfst", "svfst", "hardu", "hardw", "mixd", "mixw"}) {
		secondLib = second != 0;
		Op op;
		op.a = {"init", "p", tagOf(d), "/dict"};
		Case c;
		c.garbage = 0x5eed;
		Out o = runChild(c, [&](const Case &, Out & out) { Api a; out.kv["r"] = a.doOp(op); });
		if (o.crashed || !o.violClass.empty() || o.kv["r"] != "ok") continue;
		RunConfig rc;
		rc.garbage = 0x5eed;
		sim::begin(rc);
		Api a;
		mapCopy = true;
		std::string r = a.doOp(op);
		mapCopy = false;
		sim::end();
		if (r == "ok") pre[tagOf(d) + std::string(secondLib ? " /dict 2" : " /dict")] = a.h["p"];
	}
	secondLib = false;
}

std::vector<std::string> refAnswers(const Case & c, const std::vector<RefQuery> & q, const std::function<void()> & world) {
	std::vector<std::string> ans(q.size());
	std::map<std::pair<std::string, std::string>, std::vector<size_t>> byDict;
	for (size_t i = 0; i < q.size(); i++) byDict[{q[i].lang, q[i].path}].push_back(i);
	for (auto & bd : byDict) {
		Case r;
		r.prop = c.prop;
		r.garbage = c.garbage * 7 + 3;
		r.reuse = (c.reuse + 1) % 3;
		r.par = c.par;
		Out o = runChild(r, [&](const Case &, Out & out) {
			secondLib = true;
			if (world) world();
			Api api;
			Op in;
			in.a = {world ? "init" : "attach", "r", bd.first.first, bd.first.second};
			std::string ir = api.doOp(in);
			std::map<std::string, size_t> asked;
			for (size_t i : bd.second) {
				std::string a, key;
				for (auto & b : q[i].opt.b) key += std::to_string(b.first) + "=" + std::to_string(b.second) + ",";
				key += std::to_string(q[i].opt.minLen);
				for (size_t k = 0; k < q[i].op.a.size(); k++) if (k != 1) key += "\x01" + q[i].op.a[k];
				auto dup = asked.insert({key, i});
				if (!dup.second) { out.kv[std::to_string(i)] = out.kv[std::to_string(dup.first->second)]; continue; }
				if (ir != "ok") a = "init " + ir;
				else a = forkQuery([&]() {
					static const OptState def = defaultOptions();
					for (auto & b : q[i].opt.b) {
						auto d = def.b.find(b.first);
						if (d == def.b.end() || d->second == b.second) continue;
						Op so;
						so.a = {"bool", "r", std::to_string(b.first), std::to_string(b.second)};
						api.doOp(so);
					}
					if (q[i].opt.minLen != def.minLen) { Op so; so.a = {"int", "r", std::to_string(VOIKKO_MIN_HYPHENATED_WORD_LENGTH), std::to_string(q[i].opt.minLen)}; api.doOp(so); }
					Op qo = q[i].op;
					qo.a[1] = "r";
					return api.doOp(qo);
				});
				out.kv[std::to_string(i)] = a;
			}
		});
		for (size_t i : bd.second) {
			auto it = o.kv.find(std::to_string(i));
			if (o.crashed) ans[i] = "!harness " + o.crashInfo;
			else if (!o.violClass.empty()) ans[i] = "!" + o.violClass + " " + o.violDetail;
			else ans[i] = it == o.kv.end() ? "!harness no answer" : it->second;
		}
	}
	return ans;
}

// words that share a slot of the direct-mapped cache are made likely (any other choice would only be less sharp)
static int slotHash(const std::wstring & w) {
	static const int ord[] = {0, 3, 5, 6, 7, 7, 7, 7, 7, 7, 7};
	int h = 0;
	for (wchar_t c : w) h = (h * 37 + (int)c) % (1 << ord[w.size()]);
	return h;
}
static std::vector<std::string> colliding(const std::string & word, const std::vector<std::string> & from, size_t max) {
	std::wstring w = wide(word);
	std::vector<std::string> r;
	if (w.empty() || w.size() > 10) return r;
	int h = slotHash(w);
	for (auto & x : from) {
		if (x == word || x.size() > 20) continue;
		std::wstring y = wide(x);
		if (y.size() == w.size() && slotHash(y) == h) { r.push_back(x); if (r.size() >= max) break; }
	}
	return r;
}

std::vector<std::string> wordPool(Gen & g, const std::string & dict, size_t n) {
	std::vector<std::string> p;
	while (p.size() < n) {
		std::string w = g.word(dict);
		p.push_back(w);
		if (g.r.chance(1, 3)) for (auto & x : colliding(w, mat.good, 3)) p.push_back(x);
		if (g.r.chance(1, 3)) p.push_back(g.mutate(w));
		if (g.r.chance(1, 6)) p.push_back("-" + w);
		if (g.r.chance(1, 6)) p.push_back(w + ".");
	}
	return p;
}

static std::string num(uint64_t v) { return std::to_string(v); }

void addRandomOption(Case & c, Gen & g, int t, const std::string & h) {
	uint64_t k = g.r.below(12);
	if (k < 8) { int o, v; g.boolOption(o, v); if (v && g.r.chance(1, 30)) v = g.r.chance(1, 2) ? 2 : -1; c.add(t, {"bool", h, num((uint64_t)o), std::to_string(v)}); }
	else if (k < 10) { static const std::vector<int> sz = {-1, -1, 0, 0, 1, 2, 3, 5};
		// sizes that no machine has: they are refused and change nothing
		static const std::vector<int> big = {-2, 21, 22, 31, 32, 33, 53, 64, 0x7FFFFFFF, -0x7FFFFFFF};
		if (g.r.chance(1, 25)) { c.add(t, {"int", h, num(VOIKKO_SPELLER_CACHE_SIZE), std::to_string(g.r.pick(big))}); return; }
		c.add(t, {"int", h, num(VOIKKO_SPELLER_CACHE_SIZE), std::to_string(g.r.pick(sz))}); }
	else if (k == 10) c.add(t, {"int", h, num(VOIKKO_MIN_HYPHENATED_WORD_LENGTH), g.r.chance(1, 15) ? std::to_string(g.r.chance(1, 2) ? -1 - (int)g.r.below(3) : 0x7FFFFFFF - (int)g.r.below(3)) : num(g.r.below(14))});
	else { static const std::vector<int> fav = {VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_OCR_SUGGESTIONS}; c.add(t, {"bool", h, num((uint64_t)g.r.pick(fav)), num(g.r.below(2))}); }
}

void addRandomQuery(Case & c, Gen & g, int t, const std::string & h, const std::string & dict, const std::vector<std::string> & pool, const std::vector<std::string> & paras, int gcShare) {
	if ((int)g.r.below(100) < gcShare) {
		const std::string & p = g.r.pick(paras);
		uint64_t k = g.r.below(10);
		if (k < 4) { c.add(t, {"gc", h, p}); return; }
		std::wstring w = wide(p);
		bool wv = k < 8;
		size_t full = wv ? w.size() : p.size();
		size_t len = g.r.chance(1, 4) ? g.r.below(full + 1) : full;
		size_t st = g.r.chance(1, 2) ? 0 : g.r.below(len + 1);
		c.add(t, {wv ? "gcn" : "gcnc", h, p, num(len), num(st), num(g.r.below(4))});
		return;
	}
	const std::string & w = g.r.pick(pool);
	switch (g.r.below(16)) {
		case 0: case 1: case 2: case 3: c.add(t, {"spell", h, w}); break;
		case 4: case 5: c.add(t, {"spellw", h, w}); break;
		case 6: case 7: {
			// suggestions cost up to a thousand times as much as anything else: few per run and not for very long words
			int64_t left = c.geti("maxsugg", 2);
			size_t n = wide(w).size();
			if (left <= 0 || n > (g.r.chance(1, 5) ? 40u : 16u)) { c.add(t, {"spell", h, w}); break; }
			c.seti("maxsugg", left - 1);
			c.add(t, {g.r.chance(1, 2) ? "sugg" : "suggw", h, w});
			break;
		}
		case 8: c.add(t, {"hyph", h, w}); break;
		case 9: c.add(t, {"hyphw", h, w}); break;
		case 10: c.add(t, {"ana", h, w}); break;
		case 11: c.add(t, {"anaw", h, w}); break;
		case 12: {
			static const std::vector<std::string> hy = {"-", "\xc2\xad", "&shy;", "", "-", "=", "\xe2\x80\x90", "ab", "\xc3", "--------------------"};
			c.add(t, {"ins", h, w, g.r.pick(hy), num(g.r.below(2))});
			break;
		}
		case 13: c.add(t, {g.r.chance(1, 2) ? "tok" : "tokc", h, g.r.chance(1, 2) ? g.r.pick(paras) : w}); break;
		case 14: c.add(t, {g.r.chance(1, 2) ? "sent" : "sentc", h, g.r.pick(paras)}); break;
		case 15: { static const std::vector<std::string> at = {"CLASS", "NUMBER", "PERSON", "MOOD", "TENSE", "COMPARISON", "NEGATIVE", "PARTICIPLE", "POSSESSIVE", "SIJAMUOTO", "FOCUS", "X", "KYSYMYSLIITE", "MALAGA_VAPAA_JALKIOSA", "POSSIBLE_GEOGRAPHICAL_NAME", "REQUIRE_FOLLOWING_VERB", "BASEFORM", "", "STRUCTURE", "WORDBASES", "\xc3"}; c.add(t, {"attr", h, g.r.pick(at)}); break; }
	}
}

// only the text up to the given length counts: the reference is asked with exactly that text
static Op cutText(const Op & o) {
	Op r = o;
	if (o.a[0] == "gcn") { std::wstring w = wide(o.a[2]); size_t n = (size_t)atoi(o.a[3].c_str()); if (n < w.size()) w.resize(n); r.a[2] = narrow(w.c_str(), w.size()); }
	else if (o.a[0] == "gcnc") {
		size_t n = (size_t)atoi(o.a[3].c_str());
		if (n < o.a[2].size()) { while (n > 0 && ((unsigned char)o.a[2][n] & 0xC0) == 0x80) n--; r.a[2].resize(n); }
	}
	return r;
}

struct HistScenario : Scenario {
	std::string id;
	explicit HistScenario(const std::string & i) : id(i) {}
	std::string prop() const override { return id; }
	void setup() override { commonSetup(); preInit(); }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = id;
		c.seed = seed;
		c.garbage = g.r.chance(1, 8) ? 0 : g.r.next();
		c.reuse = (int)g.r.below(3);
		bool gc = id == "C03";
		static const std::vector<std::string> dl = {"standard", "standard", "standard", "standard", "standard", "vfstd", "bestd", "adapd", "wvfst", "wvfst", "bevfst", "svfst", "okd", "mixd", "mixw"};
		std::string dict = gc ? std::string(g.r.chance(1, 5) ? (g.r.chance(1, 4) ? "mixd" : g.r.chance(1, 2) ? "vfstd" : "bestd") : "standard") : g.r.pick(dl);
		c.add(0, {g.r.chance(1, 8) ? "init" : "attach", "h", tagOf(dict), "/dict"});
		size_t n = gc ? 10 + g.r.below(thorough ? 60 : 30) : 20 + g.r.below(thorough ? 150 : 60);
		auto pool = wordPool(g, dict, 3 + g.r.below(10));
		std::vector<std::string> paras;
		size_t np = 1 + g.r.below(4);
		for (size_t i = 0; i < np; i++) paras.push_back(g.para());
		// paragraphs that share a beginning with another one
		if (g.r.chance(1, 2)) { std::wstring w = wide(g.r.pick(paras)); w.resize(g.r.below(w.size() + 1)); paras.push_back(narrow(w.c_str(), w.size())); }
		if (g.r.chance(1, 3)) paras.push_back(g.mutate(g.r.pick(paras)));
		if (g.r.chance(1, 6)) paras.push_back(" " + g.r.pick(paras));
		c.seti("maxsugg", g.r.chance(gc ? 11 : 2, gc ? 12 : 3) ? 0 : (int64_t)(dict == "standard" ? 1 + g.r.below(4) : 1 + g.r.below(10)));
		int optShare = (int)g.r.below(40);
		if (!gc && g.r.chance(1, 4)) {
			// many cheap lookups: fills the spelling cache, whatever its size, with words of all lengths and both kinds of results
			size_t big = 40 + g.r.below(thorough ? 300 : 100);
			std::vector<std::string> many;
			// words of one to three letters have cells of their own, close to each other
			bool tiny = g.r.chance(1, 4);
			while (tiny && many.size() < big) {
				static const std::wstring low = L"abcdefghijklmnopqrstuvwxyz\u00e5\u00e4\u00f6\u0161\u017e";
				std::wstring x;
				if (g.r.chance(1, 4)) { x = wide(g.r.pick(mat.good)); if (x.size() > 3) continue; }
				else for (size_t i = 1 + g.r.below(3); i > 0; i--) x += low[g.r.below(low.size())];
				if (g.r.chance(1, 10) && !x.empty()) x[0] = towupper(x[0]);
				many.push_back(narrow(x.c_str(), x.size()));
			}
			while (many.size() < big) {
				bool wd = isWeighted(dict);
				std::string w = g.r.chance(1, 8) ? g.word(dict) : g.r.pick(wd ? mat.wwords : mat.good);
				std::wstring x = wide(w);
				if (x.empty() || x.size() > 12) continue;
				bool up = iswupper(x[0]);
				// names matter most: in lower case they are cached with another result than ordinary words
				if (!up && g.r.chance(1, 3)) continue;
				for (auto & ch : x) ch = towlower(ch);
				if (up || g.r.chance(1, 4)) many.push_back(narrow(x.c_str(), x.size()));
				if (!up || g.r.chance(1, 4)) many.push_back(w);
			}
			int size = (int)g.r.below(4);
			if (g.r.chance(1, 2)) {
				// words that differ in one or two letters and fall into the same cell
				static const int orders[] = {0, 3, 5, 6, 7, 7, 7, 7, 7, 7, 7};
				static const std::wstring low = L"abcdefghijklmnopqrstuvwxyz\u00e5\u00e4\u00f6\u0161\u017e-.'";
				if (g.r.chance(1, 2)) size = 0;
				size_t n = many.size();
				for (size_t i = 0; i < n; i++) {
					std::wstring x = wide(many[i]);
					if (x.size() < 2 || x.size() > 10) continue;
					int mod = 1 << (orders[x.size()] + size);
					for (int tries = 0; tries < 30; tries++) {
						size_t at = g.r.below(x.size());
						std::wstring y = x;
						if (at == x.size() - 1 || g.r.chance(1, 2)) { int v = x[at] ^ 0x80; if (low.find((wchar_t)v) != low.npos) y[at] = (wchar_t)v; else continue; }
						else {
							y[at] = low[g.r.below(26)];
							int d = (int)y[at] - (int)x[at], v = (((int)x[at + 1] - 37 * d) % mod + mod) % mod, found = 0;
							for (; v < 0x180 && !found; v += mod) if (low.find((wchar_t)v) != low.npos) found = v;
							if (!d || !found) continue;
							y[at + 1] = (wchar_t)found;
						}
						if (y == x) continue;
						many.push_back(narrow(y.c_str(), y.size()));
						break;
					}
				}
			}
			c.add(0, {"int", "h", num(VOIKKO_SPELLER_CACHE_SIZE), std::to_string(size)});
			for (size_t i = 0; i < 2 * big; i++) c.add(0, {g.r.chance(1, 3) ? "spellw" : "spell", "h", g.r.pick(many)});
			for (auto & w : many) c.add(0, {"spell", "h", w});
			return c;
		}
		if (!gc && g.r.chance(1, 8)) {
			// suggestions for a few short misspelled words under changing options
			static const std::vector<std::string> small = {"vfstd", "bestd", "adapd", "mixd"};
			dict = g.r.pick(small);
			c.ops.clear();
			c.add(0, {g.r.chance(1, 8) ? "init" : "attach", "h", tagOf(dict), "/dict"});
			std::vector<std::string> odd;
			while (odd.size() < 2) {
				std::string w = g.mutate(g.r.pick(mat.good));
				size_t l = wide(w).size();
				if (l < 3 || l > 7) continue;
				odd.push_back(g.r.chance(1, 4) ? w + "." : w);
			}
			static const std::vector<int> so = {VOIKKO_OPT_OCR_SUGGESTIONS, VOIKKO_OPT_OCR_SUGGESTIONS, VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_IGNORE_UPPERCASE, VOIKKO_OPT_IGNORE_NUMBERS};
			for (size_t i = 4 + g.r.below(4); i > 0; i--) {
				for (size_t k = 1 + g.r.below(3); k > 0; k--) c.add(0, {"bool", "h", num((uint64_t)g.r.pick(so)), num(g.r.below(2))});
				c.add(0, {g.r.chance(1, 2) ? "sugg" : "suggw", "h", g.r.pick(odd)});
			}
			return c;
		}
		// some runs change the same one or two options again and again
		std::vector<int> focus;
		if (g.r.chance(1, 3)) for (size_t i = 1 + g.r.below(2); i > 0; i--) { int o, v; g.boolOption(o, v); focus.push_back(g.r.chance(1, 4) ? (int)VOIKKO_OPT_OCR_SUGGESTIONS : g.r.chance(1, 4) ? (int)VOIKKO_OPT_IGNORE_DOT : o); }
		if (!focus.empty()) optShare = 20 + (int)g.r.below(40);
		static const std::vector<int> shares = {0, 2, 2, 10, 30};
		int gcShare = gc ? 80 : g.r.pick(shares);
		std::vector<std::string> here = {g.r.pick(paras)};
		if (gc) for (auto & p : paras) {
			// paragraphs about which the options have an opinion
			uint64_t k = g.r.below(6);
			std::wstring w = wide(p);
			if (k < 2) { while (!w.empty() && wcschr(L".!?:\" )", w.back())) w.pop_back(); }
			else if (k == 2) { bool up = true; for (auto & ch : w) { if (up) ch = towupper(ch); up = ch == L' '; } }
			else if (k == 3) w = L"- " + w;
			else if (k == 4) {
				// an abbreviation with an additional or missing hyphen: whether the dot ends a sentence depends on the speller options
				static const std::vector<std::wstring> ab = {L"es-im. ", L"t-oim. ", L"en-t. ", L"hu-om. ", L"v-rt. ", L"yms-. ", L"p-uh. "};
				w = g.r.pick(ab) + w;
				if (g.r.chance(1, 2)) w = L"Koira on " + w;
			}
			p = narrow(w.c_str(), w.size());
		}
		for (size_t i = 0; i < n; i++) {
			if (gc) {
				if (g.r.chance(1, 4)) here = {g.r.pick(paras)};
				if (g.r.chance(1, 6)) {
					static const std::vector<int> go = {VOIKKO_OPT_ACCEPT_TITLES_IN_GC, VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS};
					int o, v;
					g.boolOption(o, v);
					if (g.r.chance(2, 3)) o = g.r.pick(go);
					c.add(0, {"bool", "h", num((uint64_t)o), num((uint64_t)v)});
					addRandomQuery(c, g, 0, "h", dict, pool, here, 100);
					c.add(0, {"bool", "h", num((uint64_t)o), num((uint64_t)!v)});
					addRandomQuery(c, g, 0, "h", dict, pool, here, 100);
					continue;
				}
				if (g.r.chance(2, 3)) { addRandomQuery(c, g, 0, "h", dict, pool, here, 95); continue; }
			}
			if (!gc && g.r.chance(1, 10)) {
				// the same call around an option change
				std::vector<std::string> one = {g.r.pick(pool)};
				int o, v;
				g.boolOption(o, v);
				// with and without a last part that is right after any right word
				bool end = g.r.chance(1, 6);
				if (end) o = VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS;
				if (end && wide(one[0]).size() > 4 && one[0].find('-') == std::string::npos) { std::wstring x = wide(one[0]); x.insert(2 + g.r.below(x.size() - 3), 1, L'-'); one[0] = narrow(x.c_str(), x.size()); }
				if (end && g.r.chance(1, 2)) c.add(0, {"spell", "h", one[0] + "-sana"});
				c.add(0, {"bool", "h", num((uint64_t)o), num((uint64_t)v)});
				if (end) { c.add(0, {"spell", "h", one[0] + "-sana"}); c.add(0, {"bool", "h", num((uint64_t)o), num((uint64_t)!v)}); c.add(0, {"spell", "h", one[0] + "-sana"}); continue; }
				size_t at = c.ops.size();
				addRandomQuery(c, g, 0, "h", dict, one, paras, 0);
				std::vector<std::string> q = c.ops[at].a;
				if (q[0] == "sugg" || q[0] == "suggw") continue;
				c.add(0, {"bool", "h", num((uint64_t)o), num((uint64_t)!v)});
				c.add(0, q);
				continue;
			}
			if ((int)g.r.below(100) < optShare) {
				if (!focus.empty() && g.r.chance(4, 5)) c.add(0, {"bool", "h", num((uint64_t)g.r.pick(focus)), num(g.r.below(2))});
				else addRandomOption(c, g, 0, "h");
			}
			else addRandomQuery(c, g, 0, "h", dict, pool, paras, gcShare);
			if (g.r.chance(1, 60)) { c.add(0, {"term", "h"}); c.add(0, {"init", "h", tagOf(dict), "/dict"}); }
		}
		return c;
	}
	void exec(const Case & c, Out & o) override {
		Api api;
		for (auto & op : c.ops) o.res.push_back({op.id, api.doOp(op)});
		Op t;
		t.a = {"term", "h"};
		api.doOp(t);
	}
	Verdict check(const Case & c, const Out & o) override {
		OptTracker tr;
		std::vector<RefQuery> q;
		std::vector<size_t> at;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op & op = c.ops[i];
			const std::string & r = o.res[i].second;
			if (r.compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + ": " + r};
			if (isQuery(op.a[0]) && r != "skip") {
				auto & l = tr.lang[op.a[1]];
				q.push_back(RefQuery{l.first, l.second, tr.st[op.a[1]], cutText(op)});
				at.push_back(i);
			}
			else tr.apply(op, r);
		}
		auto ans = refAnswers(c, q);
		for (size_t i = 0; i < q.size(); i++) {
			const std::string & got = o.res[at[i]].second;
			if (ans[i].compare(0, 8, "!harness") == 0) return Verdict{"HARNESS", ans[i]};
			if (ans[i].size() && ans[i][0] == '!') return Verdict{"reference-" + ans[i].substr(1, ans[i].find(' ') - 1), ans[i]};
			if (got != ans[i]) return Verdict{"history-dependence", "operation " + std::to_string(q[i].op.id) + " " + q[i].op.a[0] + " '" + q[i].op.a[2].substr(0, 60) + "' answered '" + got.substr(0, 200) + "', a fresh handle with the same options answers '" + ans[i].substr(0, 200) + "'"};
		}
		return Verdict();
	}
	bool opRemovable(const Op & o) override { return !(o.id == 1); }
	std::string rule() const override {
		return id == "C02" ? "random histories of spelling, suggestion, hyphenation, analysis, token, sentence and attribute calls with option and cache-size changes on one handle over 10 dictionaries (small word pools so that calls interact; heap contents and reuse order vary per run); each answer is compared with a freshly created handle that has the same option values; non-trivial: at least 5 queries after the first option change or repeated word"
			: "random histories of whole and incremental grammar queries (text length, start position, skip count), paragraph changes and option changes; each answer compared with a freshly created handle with the same option values; non-trivial: at least 5 grammar queries";
	}
	std::string components() const override { return "real: all of libvoikko (unmodified sources, instrumented), libstdc++, glibc; simulated: file system, environment, heap contents and reuse, scheduler (one thread)"; }
	bool nontrivial(const Case & c, const Out & o) override {
		(void)o;
		int n = 0;
		for (auto & op : c.ops) if (id == "C03" ? op.a[0][0] == 'g' : isQuery(op.a[0])) n++;
		return n >= 5;
	}
};
Scenario * makeC02() { return new HistScenario("C02"); }
Scenario * makeC03() { return new HistScenario("C03"); }
