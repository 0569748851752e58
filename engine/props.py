"""Registry: property id -> (check function, level, explanation)."""
import importlib

MODULES = {
    "C01": "p_xml", "C02": "p_xml", "C03": "p_rt", "C04": "p_value", "C05": "p_rt", "C06": "p_rt", "C07": "p_config", "C10": "p_io", "C11": "p_io", "C08": "p_rt", "C09": "p_styles", "C12": "p_read", "C13": "p_panic", "C14": "p_view", "C15": "p_options", "C16": "p_dim", "C17": "p_access", "C18": "p_registry", "C19": "p_attrs", "C20": "p_attrs", "C21": "p_formats", "C22": "p_refs", "C23": "p_refs", "C24": "p_content", "C25": "p_conv",
}


def get(prop):
    m = importlib.import_module(MODULES[prop])
    return m.PROPS[prop]
