"""A gyp generator that captures what gyp hands to generators, and renders nothing."""
generator_additional_non_configuration_keys = []
generator_additional_path_sections = []
generator_extra_sources_for_rules = []
generator_filelist_paths = None
generator_supports_multiple_toolsets = True
generator_wants_static_library_dependencies_adjusted = True
generator_wants_sorted_dependencies = False

generator_default_variables = {
    "CONFIGURATION_NAME": "$(BUILDTYPE)",
    "EXECUTABLE_PREFIX": "",
    "EXECUTABLE_SUFFIX": "",
    "INTERMEDIATE_DIR": "$(IDIR)",
    "PRODUCT_DIR": "$(PDIR)",
    "LIB_DIR": "$(LDIR)",
    "SHARED_LIB_DIR": "$(SLDIR)",
    "RULE_INPUT_DIRNAME": "$(RID)",
    "RULE_INPUT_EXT": "$(RIE)",
    "RULE_INPUT_NAME": "$(RIN)",
    "RULE_INPUT_PATH": "$(RIP)",
    "RULE_INPUT_ROOT": "$(RIR)",
    "SHARED_INTERMEDIATE_DIR": "$(SIDIR)",
    "SHARED_LIB_PREFIX": "lib",
    "STATIC_LIB_PREFIX": "lib",
    "STATIC_LIB_SUFFIX": ".a",
    "SHARED_LIB_SUFFIX": ".so",
    "OS": "linux",
}

captured = []


def CalculateGeneratorInputInfo(params):
    global generator_wants_static_library_dependencies_adjusted
    global generator_wants_sorted_dependencies
    global generator_supports_multiple_toolsets
    flags = params.get("generator_flags", {})
    generator_wants_static_library_dependencies_adjusted = bool(flags.get("adjust", 1))
    generator_wants_sorted_dependencies = bool(flags.get("sorted", 0))
    generator_supports_multiple_toolsets = bool(flags.get("toolsets", 1))


def GenerateOutput(target_list, target_dicts, data, params):
    captured.append((list(target_list), dict(target_dicts), data))
