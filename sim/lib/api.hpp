// Executes operations against the public C API of libvoikko under the simulator.
#pragma once
#include "../case.hpp"
#include <voikko.h>

extern bool secondLib;      // calls go to the second copy of the library
bool isWeighted(const std::string & dict);      // a dictionary of the words in data/words_w.txt
struct Api {
	std::map<std::string, VoikkoHandle *> h;
	std::set<int> oldOpen;                // numbers given out by the old API
	std::string doOp(const Op & o);       // one operation, result as text
	bool isOpen(const std::string & n) const { auto it = h.find(n); return it != h.end() && it->second; }
};
std::wstring wide(const std::string & utf8);
std::string narrow(const wchar_t * w, size_t n);
// Runs fn in a forked copy of the simulated process, returns what it returned or "!violation ..."
std::string forkQuery(const std::function<std::string()> & fn);

// ---------------------------------------------------------------- input material
struct Material {
	std::vector<std::string> good, bad, paras, wwords, vwords, repeats;
	void load();
};
extern Material mat;
struct Gen {
	sim::Rng r;
	explicit Gen(uint64_t s) : r(s) {}
	std::string word(const std::string & dict);
	std::string mutate(const std::string & w);
	std::string para();
	wchar_t strange();
	std::string text();
	void boolOption(int & opt, int & val);
};
extern const std::vector<int> boolOptions;
struct OptState {           // option values in force
	std::map<int, int> b;
	int minLen = 2;
	std::string key() const;
};
// Handles created once in the parent process; every run gets them by fork (operation "attach")
void preInit(bool both = true);
VoikkoHandle * takePre(const std::string & lang, const std::string & path);
void baseTree();            // the dictionaries under /dict
std::string dictFile(const std::string & dict, const std::string & file);
const std::vector<std::string> & dictFiles(const std::string & dict);
