// Stand-in for EVMC (not installable offline): the C types the sources use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
struct evmc_bytes32 {
    uint8_t bytes[32];
};
typedef struct evmc_bytes32 evmc_uint256be;
struct evmc_address {
    uint8_t bytes[20];
};
enum evmc_call_kind {
    EVMC_CALL = 0,
    EVMC_DELEGATECALL = 1,
    EVMC_CALLCODE = 2,
    EVMC_CREATE = 3,
    EVMC_CREATE2 = 4
};
enum evmc_flags { EVMC_STATIC = 1 };
struct evmc_message {
    enum evmc_call_kind kind;
    uint32_t flags;
    int32_t depth;
    int64_t gas;
    evmc_address recipient;
    evmc_address sender;
    const uint8_t* input_data;
    size_t input_size;
    evmc_uint256be value;
    evmc_bytes32 create2_salt;
    evmc_address code_address;
};
struct evmc_tx_context {
    evmc_uint256be tx_gas_price;
    evmc_address tx_origin;
    evmc_address block_coinbase;
    int64_t block_number;
    int64_t block_timestamp;
    int64_t block_gas_limit;
    evmc_uint256be block_prev_randao;
    evmc_uint256be chain_id;
    evmc_uint256be block_base_fee;
};
enum evmc_status_code {
    EVMC_SUCCESS = 0,
    EVMC_FAILURE = 1,
    EVMC_REVERT = 2,
    EVMC_OUT_OF_GAS = 3,
    EVMC_INVALID_INSTRUCTION = 4,
    EVMC_INTERNAL_ERROR = -1,
    EVMC_REJECTED = -2,
    EVMC_OUT_OF_MEMORY = -3
};
struct evmc_result {
    enum evmc_status_code status_code;
    int64_t gas_left;
    int64_t gas_refund;
    const uint8_t* output_data;
    size_t output_size;
    void (*release)(const struct evmc_result*);
    evmc_address create_address;
    uint8_t padding[4];
};
enum evmc_access_status { EVMC_ACCESS_COLD = 0, EVMC_ACCESS_WARM = 1 };
enum evmc_storage_status {
    EVMC_STORAGE_ASSIGNED = 0,
    EVMC_STORAGE_ADDED = 1,
    EVMC_STORAGE_DELETED = 2,
    EVMC_STORAGE_MODIFIED = 3
};
enum evmc_revision { EVMC_LATEST_STABLE_REVISION = 11, EVMC_MAX_REVISION = 12 };
struct evmc_vm {
    int unused;
};
