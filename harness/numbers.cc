#include "numbers.inc"
int main(int argc, char **argv) { return se::run_main(argc, argv, "numbers", number_cases()); }
