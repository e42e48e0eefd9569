import importlib
import os


def all_ids():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("c") and f.endswith(".py") and f[1:-3].isdigit())


def load(pid):
    return importlib.import_module(f"pbt.props.{pid.lower()}").PROP
