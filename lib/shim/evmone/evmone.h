#pragma once
#include <evmc/evmc.h>
#ifdef __cplusplus
extern "C" struct evmc_vm* evmc_create_evmone(void) noexcept;
#else
struct evmc_vm* evmc_create_evmone(void);
#endif
