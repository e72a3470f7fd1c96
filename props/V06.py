"""VeriBetrKV's design for crash safety, as its Dafny state machines give it."""
import m_design


def run(ctx):
    for what, cls in (("three states", m_design.ThreeStates), ("three states with journals", m_design.Journaled), ("states view with journal view", m_design.Composite)):
        m_design.check(ctx, what, cls, ctx.pick(6000, 60000), ctx.pick(250, 1500), 40, ctx.pick(15, 120))
