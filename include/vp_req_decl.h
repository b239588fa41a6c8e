static void vp_init_loop(int *i);
