package hlc;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[]{NumImpl.class}; }
}
