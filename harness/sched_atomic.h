// Force-included into the library's files in flavor sched: the compiler's load and store callbacks leave out atomic
// read-modify-writes, so they announce themselves.
#pragma once
#include <atomic>
#include <condition_variable>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
extern "C" void mbpbt_rmw(void);
#define fetch_add(a, ...) fetch_add((mbpbt_rmw(), (a)), ##__VA_ARGS__)
#define fetch_sub(a, ...) fetch_sub((mbpbt_rmw(), (a)), ##__VA_ARGS__)
#define compare_exchange_strong(a, ...) compare_exchange_strong((mbpbt_rmw(), (a)), ##__VA_ARGS__)
#define compare_exchange_weak(a, ...) compare_exchange_weak((mbpbt_rmw(), (a)), ##__VA_ARGS__)
