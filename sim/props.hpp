#pragma once
#include <functional>
void run_pridec();
void run_pridec_same();
void run_single();
void run_dist();
void run_failing();
void run_repeat();
void run_clock();
void run_output();
void run_options();
void run_linalg();
void run_factorizations();
void run_checkpoint();
void run_memory();
void run_start();
void run_pridec_memory();
void run_pridec_stop();
void released_twice(const std::function<bool()>& once, const char* what);
