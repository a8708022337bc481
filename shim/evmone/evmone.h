#pragma once
#include <evmc/evmc.h>
inline evmc_vm* evmc_create_evmone() {
    static evmc_vm v{};
    return &v;
}
