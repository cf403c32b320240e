void vt_mem(void);
