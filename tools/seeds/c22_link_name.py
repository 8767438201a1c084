PROPERTY = 'C22'
NEEDS = 'a path whose last part is a symbolic link'
BREAKS = 'the name of the file the link points to is given instead of the name in the path'
SHIMS = False
EDITS = [('src/filesystem_wrappers/filesystem_pathlib_wrapper.py', 'return str(pathlib.Path(path).name)', 'return str(pathlib.Path(path).resolve().name)')]
### DEMO
import os
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper as F
f = F()
os.mkdir("real")
os.symlink("real", "link")
assert f.name(os.path.join(os.getcwd(), "link")) == "link"
assert f.name("x/../y") == "y"
