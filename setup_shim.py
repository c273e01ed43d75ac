"""setup_cmd: builds the clock/entropy seam (checks also build it on demand)."""
import check

print(check.shim() or "no compiler: checks run without the clock seam")
