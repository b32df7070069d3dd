"""serve_child.py PORTFILE ARGS...: the command line with ARGS, serving on a free port written to PORTFILE."""
import os
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    import cherrypy
    import hyperreal.server

    port_file = sys.argv[1]
    launch = hyperreal.server.launch_web_server

    def launch_on_free_port(*args, **kwargs):
        kwargs["port"] = 0
        engine = launch(*args, **kwargs)
        with open(port_file + ".tmp", "w") as f:
            f.write("%s %s" % cherrypy.server.bound_addr[:2])
        os.replace(port_file + ".tmp", port_file)
        return engine

    hyperreal.server.launch_web_server = launch_on_free_port
    import hyperreal.cli

    hyperreal.cli.cli(sys.argv[2:])
