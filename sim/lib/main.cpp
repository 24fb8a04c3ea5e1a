#include "scen.hpp"
#include "api.hpp"
#include <clocale>
#include <locale>
#include <sstream>
#include <iostream>
#include <fstream>
void commonSetup() {
	// fill the C++ library's lazily created locale caches before any simulated run
	setlocale(LC_ALL, "C.UTF-8");
	{ std::ostringstream o; o << 1.5 << 2 << true << std::hex << 3ul; std::wostringstream w; w << 1.5 << 2 << L"x"; std::istringstream i("1 2.5 x"); int a; double d; std::string s; i >> a >> d >> s; std::wistringstream wi(L"1 x"); std::wstring ws; wi >> a >> ws; }
	mat.load();
	baseTree();
}
int main(int argc, char ** argv) { return driverMain(argc, argv, {makeC01(), makeC02(), makeC03(), makeC05(), makeC06(), makeC07(), makeC08(), makeC11(), makeC13(), makeC15(), makeC18()}); }
