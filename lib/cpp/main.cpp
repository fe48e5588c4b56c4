#include "engine.hpp"
int main(int argc, char **argv) { return pbt::run(argc, argv); }
