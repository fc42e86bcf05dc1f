// BookSim's anynet includes the telemetry header without using it; the stand-alone network harness needs no SystemC.
#pragma once
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <string>
#include <vector>
