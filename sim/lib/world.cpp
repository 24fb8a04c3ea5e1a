#include "world.hpp"
using namespace sim;
Fault mkFault(int kind, uint64_t nth, int arg, int op) { Fault f; f.kind = kind; f.nth = nth; f.arg = arg; f.op = op; return f; }

bool fsOp(const Op & o) {
	if (o.a[0] != "fs") return false;
	const std::string & k = o.a[1];
	auto A = [&](size_t i) -> const std::string & { static const std::string e; return i < o.a.size() ? o.a[i] : e; };
	std::string d;
	if (k == "remove") fsRemove(A(2));
	else if (k == "mkdir") fsMkdirs(A(2));
	else if (k == "trunc") { if (fsRead(A(2), d)) { size_t n = (size_t)atoll(A(3).c_str()); if (n < d.size()) d.resize(n); fsPut(A(2), d); } }
	else if (k == "zero") { if (fsRead(A(2), d)) { size_t n = (size_t)atoll(A(3).c_str()); for (size_t i = n; i < d.size(); i++) d[i] = 0; fsPut(A(2), d); } }
	else if (k == "copy") fsPut(A(4), dictFile(A(2), A(3)));
	else if (k == "deny") { auto it = fsTree.find(A(2)); if (it != fsTree.end()) it->second.unreadable = true; }
	else if (k == "put") fsPut(A(2), A(3));
	else if (k == "dict") for (auto & f : dictFiles(A(2))) fsPut(A(3) + "/" + f, dictFile(A(2), f));     // whole dictionary to a directory
	else if (k == "order") dirOrderSeed = strtoull(A(2).c_str(), nullptr, 10);
	else if (k == "dtype") dtypeMode = atoi(A(2).c_str());
	else if (k == "env") env[A(2)] = A(3);
	else if (k == "unenv") env.erase(A(2));
	else if (k == "envall") envDefault = A(2);
	else if (k == "home") homeDir = A(2);
	else if (k == "chdir") { fsMkdirs(A(2)); cwd = A(2); }
	return true;
}

static std::string num(uint64_t v) { return std::to_string(v); }
void addBattery(Case & c, Gen & g, int t, const std::string & h, const std::string & dict, int sugg) {
	bool w = isWeighted(dict);
	std::string good = w ? g.r.pick(mat.wwords) : dict != "standard" && g.r.chance(1, 2) ? g.r.pick(mat.vwords) : g.r.pick(mat.good), bad = g.mutate(good);
	c.add(t, {"spell", h, good});
	c.add(t, {"spell", h, bad});
	c.add(t, {"spellw", h, g.word(dict)});
	c.add(t, {"hyph", h, g.word(dict)});
	c.add(t, {"ins", h, good, "-", num(g.r.below(2))});
	c.add(t, {"ana", h, good});
	c.add(t, {"anaw", h, g.word(dict)});
	for (int i = 0; i < sugg; i++) {
		std::string s = bad;
		if (wide(s).size() > 12 && !w) s = "kissq";
		c.add(t, {g.r.chance(1, 2) ? "sugg" : "suggw", h, s});
	}
	c.add(t, {"gc", h, g.para()});
	// text in which the autocorrect data matters
	if (g.r.chance(1, 2)) c.add(t, {"gc", h, "Joten kuten k\xc3\xa4vi niin ett\xc3\xa4 ainoastaan h\xc3\xa4n suunnilleen hyv\xc3\xa4ksyttiin esi merkiksi."});
	c.add(t, {"attr", h, g.r.chance(1, 2) ? "CLASS" : "SIJAMUOTO"});
	c.add(t, {"tok", h, g.para()});
	c.add(t, {"sent", h, g.para()});
}

void runOps(const Case & c, Out & o, Api & api, bool retry) {
	std::set<int> faulty;
	for (auto & f : c.faults) faulty.insert(f.op);
	for (auto & op : c.ops) {
		if (fsOp(op)) { o.res.push_back({op.id, "world"}); continue; }
		bool fl = faulty.count(op.id) > 0;
		if (fl) beginOp(op.id); else beginOp(-1);
		arm(fl);
		std::string r = api.doOp(op);
		arm(false);
		if (fl && faultFiredInOp()) {
			o.kv["fired" + std::to_string(op.id)] = r;
			if (retry) {
				// the failed call is repeated without faults where it is meant to change something
				const std::string & k = op.a[0];
				beginOp(-1);
				if (k == "init") { if (!api.isOpen(op.a[1])) r = api.doOp(op); }
				else if (k == "bool" || k == "int") r = api.doOp(op);
				else r = "faulted";
			}
		}
		o.res.push_back({op.id, r});
	}
}
