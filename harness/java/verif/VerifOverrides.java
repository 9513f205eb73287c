package verif;

import tlc2.overrides.ITLCOverrides;

public final class VerifOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] {BigNumOverride.class, CurveOverride.class}; }
}
