"""setup_cmd: builds the engine and the native runner, extracts the toolchain's library bitcode."""
import build
build.tools()
build.stdlib()
print("ready in", build.SCRATCH)
