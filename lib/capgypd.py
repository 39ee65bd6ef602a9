"""A gyp generator that keeps the loaded documents, with every generator variable standing for itself."""
generator_supports_multiple_toolsets = True
generator_default_variables = {v: f"<({v})" for v in (
    "CONFIGURATION_NAME EXECUTABLE_PREFIX EXECUTABLE_SUFFIX INTERMEDIATE_DIR LIB_DIR PRODUCT_DIR RULE_INPUT_ROOT RULE_INPUT_DIRNAME RULE_INPUT_EXT RULE_INPUT_NAME "
    "RULE_INPUT_PATH SHARED_INTERMEDIATE_DIR SHARED_LIB_DIR SHARED_LIB_PREFIX SHARED_LIB_SUFFIX STATIC_LIB_PREFIX STATIC_LIB_SUFFIX").split()}
captured = []


def GenerateOutput(target_list, target_dicts, data, params):
    captured.append((list(target_list), data))
