"""Parts shared by the checks of the CMake package: an installation of the working tree's cmake_utils in a scratch folder."""
import os, shutil, subprocess, tempfile
from lib import build as B


def run(cmd, cwd=None, env=None):
    e = dict(os.environ, LC_ALL="C", GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
    for k in ("CMAKE_PREFIX_PATH", "CMAKE_GENERATOR", "CXXFLAGS", "CFLAGS", "LDFLAGS", "DESTDIR", "MAKEFLAGS", "CMAKE_BUILD_TYPE", "CMAKE_INSTALL_PREFIX"):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


class Installed:
    """with Installed() as prefix: cmake_utils of the working tree, installed in a prefix of its own"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-cmake-")
        src = os.path.join(B.REPO, "cmake_utils")
        # its sources are copied (with the version and the license beside them), so that nothing is ever written in the tree
        top = os.path.join(self.d, "src")
        os.mkdir(top)
        shutil.copytree(src, os.path.join(top, "cmake_utils"), ignore=shutil.ignore_patterns("build"))
        for f in ("VERSION", "LICENSE"):
            shutil.copy(os.path.join(B.REPO, f), top)
        self.prefix = os.path.join(self.d, "prefix")
        for cmd in (["cmake", "-S", os.path.join(top, "cmake_utils"), "-B", os.path.join(self.d, "build"), "-DCMAKE_INSTALL_PREFIX=" + self.prefix],
                    ["cmake", "--build", os.path.join(self.d, "build")],
                    ["cmake", "--install", os.path.join(self.d, "build")]):
            r = run(cmd)
            if r.returncode:
                out = "%s failed:\n%s" % (" ".join(cmd), r.stdout[-3000:])
                self.__exit__()
                raise Unusable(out)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Unusable(Exception):
    """cmake_utils itself can be neither configured nor installed"""
