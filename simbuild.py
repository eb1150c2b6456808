"""Builds the simulator from /repo's current working tree into an output directory."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("VERIF_REPO", "/repo")
ALLOC = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "reallocarray", "asprintf", "vasprintf", "aligned_alloc", "posix_memalign"]
SYS = ["read", "write", "writev", "ioctl", "epoll_create1", "epoll_ctl", "epoll_wait", "posix_openpt", "grantpt", "unlockpt",
       "ptsname", "ptsname_r", "open", "open64", "pipe2", "pipe", "fork", "close", "setsid", "dup2", "tcgetattr", "tcsetattr", "exit", "_exit", "signal",
       "sigprocmask", "pthread_sigmask", "sigaction", "poll", "select", "recv", "send", "fcntl", "fcntl64", "login_tty", "waitpid", "kill", "eventfd",
       "nanosleep", "usleep", "time", "gettimeofday", "clock_gettime", "vfork", "pselect", "ppoll", "epoll_pwait", "readv", "dup", "dup3", "tcsetpgrp", "getpid",
       "openat", "openat64", "getpt", "epoll_create", "_Exit"]
# calls of the widget that go to the simulated main loop, window system and fonts (sim/gtk)
GTK = """gtk_drawing_area_get_type gtk_widget_queue_draw gtk_widget_queue_draw_area gtk_widget_get_window gtk_widget_get_display gtk_widget_set_can_focus
gtk_widget_add_events gdk_window_get_events gdk_window_set_events gdk_keymap_get_for_display gdk_keymap_translate_keyboard_state
g_io_channel_unix_new g_io_channel_ref g_io_channel_unref g_io_channel_set_close_on_unref g_io_add_watch g_io_add_watch_full g_idle_add g_idle_add_full
g_timeout_add g_timeout_add_full g_child_watch_add g_child_watch_add_full g_source_remove g_spawn_close_pid g_get_monotonic_time g_log g_logv
pango_cairo_font_map_get_default pango_cairo_font_map_new pango_font_map_create_context pango_context_set_base_dir pango_context_set_language
pango_context_set_font_description pango_cairo_context_set_font_options pango_layout_new pango_layout_set_height pango_layout_set_width
pango_layout_set_spacing pango_layout_set_text pango_layout_get_pixel_extents pango_layout_get_pixel_size pango_layout_get_baseline
pango_layout_get_line_count pango_layout_get_line_readonly pango_layout_get_line pango_layout_line_get_pixel_extents pango_cairo_update_context
pango_cairo_update_layout pango_cairo_show_layout_line pango_cairo_show_layout cairo_image_surface_create_for_data cairo_image_surface_create
gtk_widget_queue_draw_region gtk_widget_get_allocated_width gtk_widget_get_allocated_height gtk_widget_get_allocation gdk_window_invalidate_rect
gdk_window_get_width gdk_window_get_height gtk_widget_get_events gtk_widget_set_events gtk_widget_grab_focus gtk_widget_get_realized gtk_widget_get_mapped
gtk_widget_get_visible g_source_remove_by_user_data g_idle_remove_by_data g_strdup g_strndup g_ucs4_to_utf8 g_free g_value_take_string
pango_font_description_from_string pango_font_description_new pango_font_description_copy pango_font_description_free cairo_font_options_create
cairo_font_options_copy cairo_font_options_destroy tsm_vte_new tsm_vte_input""".split()
SAN = "-fsanitize=address,bounds,null,alignment,object-size,return,unreachable,vla-bound,integer-divide-by-zero -fno-sanitize-recover=all"


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sut_sources():
    r = sorted(glob.glob(REPO + "/src/tsm/*.c")) + sorted(glob.glob(REPO + "/src/shared/*.c"))
    r += sorted(glob.glob(REPO + "/external/wcwidth/*.c"))
    r = [x for x in r if not os.path.basename(x).startswith("test_")]
    if not os.path.exists(SIM + "/kernel.cpp"):
        r = [x for x in r if "pty" not in os.path.basename(x)]
    return r


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(out, flavour=""):
    """Builds and returns the simulator. Flavours: "debug": the library is compiled with its debug messages
    (BUILD_ENABLE_DEBUG); "gtk": with the terminal widget on top."""
    debug, gtk = flavour == "debug", flavour == "gtk"
    os.makedirs(out, exist_ok=True)
    inc = ["-I", REPO + "/src/tsm", "-I", REPO + "/src/shared", "-I", REPO + "/external", "-I", REPO + "/external/wcwidth", "-I", REPO + "/external/xkbcommon", "-I", SIM]
    headers = sorted(glob.glob(REPO + "/src/*/*.h")) + sorted(glob.glob(REPO + "/external/**/*.h", recursive=True))
    simh = sorted(glob.glob(SIM + "/*.h")) + sorted(glob.glob(SIM + "/gtk/*.h"))
    gflags, glibs = [], []
    if gtk:
        gflags = run(["pkg-config", "--cflags", "gtk+-3.0", "pangocairo", "xkbcommon"]).split() + ["-I", REPO + "/src/gtktsm"]
        glibs = ["-Wl,--as-needed"] + run(["pkg-config", "--libs", "gtk+-3.0", "pangocairo", "xkbcommon"]).split()
    jobs = []   # (obj, key, [commands])
    objs = []

    for s in sut_sources() + [SIM + "/sut_array.c"] + ([REPO + "/src/gtktsm/gtktsm-terminal.c"] if gtk else []):
        isgtk = "/gtktsm/" in s
        o = os.path.join(out, ("sutd_" if debug else "sut_") + (os.path.relpath(s, REPO).replace("/", "_") if s.startswith(REPO + "/") else os.path.basename(s))[:-2] + ".o")
        cmd = ["gcc", "-std=gnu99", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_POSIX_C_SOURCE=199309L", "-D_GNU_SOURCE", "-fno-omit-frame-pointer",
               "-fsanitize-coverage=trace-pc"] + (["-DBUILD_ENABLE_DEBUG"] if debug else []) + SAN.split() + inc + (["-DG_DISABLE_CAST_CHECKS"] + gflags if isgtk else []) + ["-c", s, "-o", o + ".raw.o"]
        names = ALLOC + (SYS if "/shared/" in s else [])
        ren = ["objcopy"]
        for n in names:
            ren += ["--redefine-sym", "%s=sim_%s" % (n, n)]
        for n in GTK if isgtk else []:
            ren += ["--redefine-sym", "%s=simg_%s" % (n, n)]
        ren += [o + ".raw.o", o]
        jobs.append((o, digest([s] + headers, " ".join(cmd + ren)), [cmd, ren]))
        objs.append(o)
    for s in sorted(glob.glob(SIM + "/*.cpp")) + (sorted(glob.glob(SIM + "/gtk/*.cpp")) if gtk else []) + sorted(x for x in glob.glob(SIM + "/*.c") if not x.endswith("/sut_array.c")):
        o = os.path.join(out, "h_" + os.path.basename(s) + ".o")
        if s.endswith(".cpp"):
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-fno-omit-frame-pointer"] + inc + (gflags if "/sim/gtk/" in s else []) + ["-c", s, "-o", o]
            cmds = [cmd]
        elif s.endswith("shim.c"):
            cmd = ["gcc", "-std=gnu99", "-O1", "-w", "-D_GNU_SOURCE", "-DSHIM_AGE"] + inc + ["-c", s, "-o", o]
            cmds = [("alt", cmd, [x for x in cmd if x != "-DSHIM_AGE"])]
        else:
            cmd = ["gcc", "-std=gnu99", "-O1", "-g1", "-w", "-D_GNU_SOURCE"] + inc + ["-c", s, "-o", o]
            cmds = [cmd]
        jobs.append((o, digest([s] + simh + headers, " ".join(cmd)), cmds))
        objs.append(o)

    def do(job):
        o, key, cmds = job
        kf = o + ".key"
        if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == key:
            return False
        for c in cmds:
            if c[0] == "alt":
                try:
                    run(c[1])
                except BuildError:
                    run(c[2])
            else:
                run(c)
        open(kf, "w").write(key)
        return True

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        changed = list(ex.map(do, jobs[::-1]))
    exe = os.path.join(out, "sim-" + flavour if flavour else "sim")
    if any(changed) or not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        run(["g++", "-no-pie", "-fsanitize=address,undefined", "-o", tmp] + objs + glibs)
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        for fl in ("", "debug", "gtk"):
            print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(HERE, "build"), fl))
    except BuildError as e:
        print(e)
        sys.exit(2)
