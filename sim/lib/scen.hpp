#pragma once
#include "../case.hpp"
void commonSetup();
Scenario * makeC01();
Scenario * makeC02();
Scenario * makeC03();
Scenario * makeC05();
Scenario * makeC06();
Scenario * makeC07();
Scenario * makeC08();
Scenario * makeC11();
Scenario * makeC13();
Scenario * makeC15();
Scenario * makeC18();
