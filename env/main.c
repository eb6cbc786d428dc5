/* entry point of the symbolic build */
void vf_main(void);
int main(void) { vf_main(); return 0; }
