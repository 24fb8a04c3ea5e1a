#pragma once
#include "api.hpp"
// One query as the reference sees it: dictionary, option values, the operation itself
struct RefQuery { std::string lang, path; OptState opt; Op op; };
// Each query answered by a freshly created handle with exactly these option values (fork per query)
std::vector<std::string> refAnswers(const Case & c, const std::vector<RefQuery> & q, const std::function<void()> & world = nullptr);
bool isQuery(const std::string & k);
// option values in force before each operation of a handle's history
struct OptTracker {
	std::map<std::string, OptState> st;
	std::map<std::string, std::pair<std::string, std::string>> lang;
	void apply(const Op & o, const std::string & result);
};
OptState defaultOptions();
std::vector<std::string> wordPool(Gen & g, const std::string & dict, size_t n);
void addRandomQuery(Case & c, Gen & g, int t, const std::string & h, const std::string & dict, const std::vector<std::string> & pool, const std::vector<std::string> & paras, int gcShare);
void addRandomOption(Case & c, Gen & g, int t, const std::string & h);
std::string tagOf(const std::string & dict);
