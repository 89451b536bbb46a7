"""Entry points and graphs several rules share."""
import re
from absint import Interp, show, short, last, mk, C, S, T
import q

MAIN = "nd::main"
BYTE = "nd::byte::ByteStream"
SEG = "nd::segment::SegmentStream"

# functions of the standard library that change the file system or another process's files
MUTATING_FS = re.compile(
    r"^std::fs::(rename|remove_file|remove_dir|remove_dir_all|copy|hard_link|create_dir|create_dir_all|set_permissions|write|soft_link)$"
    r"|^std::fs::File::(create|create_new|create_buffered|options|set_len|set_permissions)$"
    r"|^std::fs::OpenOptions::(new|open)$|^std::os::unix::fs::(symlink|chown|fchown|lchown)$"
    r"|^tempfile::|^std::fs::DirBuilder")


def drains(prog, ty):
    """does the type carry a byte stream, or the pipeline that builds one?"""
    return bool(re.search(r"dyn nd::byte::ByteStream|nd::pipeline::Pipeline\b", ty))


def main_graph(prog):
    """main with everything inlined except the construction of the stream pipeline and the streams themselves"""
    def top(tg, ctx):
        return not drains(prog, tg.locals[0]["ty"]) and not tg.path.startswith("<")
    return Interp(prog, MAIN, inline=top, max_steps=100000)
