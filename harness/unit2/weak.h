int host_is_big_endian() __attribute__((weak));
