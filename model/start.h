/* Brings a process up to the application's main(), app_main(). */
static int app_main(int, char **, char **);
#ifdef VF_STATIC
int vfr_main(int c, char **v, char **e) { return app_main(c, v, e); }
#endif
static char *boot_av[2] = { "a", NULL }, *boot_ev[1] = { NULL };
static void boot(void)
{
    if (vf_environ == NULL)
	vf_environ = boot_ev;
    vf_ctors();
#ifdef VF_STATIC
    vf_libc_exit(vf_main(1, boot_av, vf_environ));
#else
    vf___libc_start_main(app_main, 1, boot_av, NULL, NULL, NULL, NULL);
#endif
    VF_STOP();
}
