"""Which documents and schedules exercise which property: weights for gen.Gen,
as {property: [(scenarios in the quick tier, weights)]}."""

ALLTR = (('start', 3), ('pause', 3), ('resume', 3), ('stop', 2), ('abort', 2))
LIFE = (('start', 4), ('pause', 3), ('resume', 3), ('stop', 2), ('abort', 1))
STARTS = (('start', 6), ('pause', 1), ('resume', 1), ('stop', 3), ('abort', 1))
FULL = (250, 500, 500, 1000, 1500, 2000, 0)

DYN = {
    'C01': [(260, dict(w_trans=5, w_act=4, act_tr=ALLTR, act_ty=(('p', 4), ('a', 3), ('s', 2), ('l', 2)), p_switch=.2,
                       p_sel=.3, p_look=.15, steps=(10, 22), links=(0, 3))),
            (220, dict(w_trans=2, w_act=6, act_tr=ALLTR, act_ty=(('p', 4), ('a', 3), ('s', 1), ('l', 1)), p_adur=.7,
                       p_ctx=.35, areas=(1, 3), p_refer=.2))],
    'C02': [(330, dict(links=(3, 7), sublinks=(1, 4), p_guard=.5, p_attr_cond=.3, conds=(1, 3), p_refer=.25, p_ctx=.35,
                       acts=(1, 2), w_act=6, p_self=.25, p_delay=.1)),
            (200, dict(links=(2, 5), sublinks=(2, 4), p_refer=.5, p_ctx=.5, depth=3, acts=(1, 2), w_act=6, p_port=1,
                       act_tr=ALLTR, p_delay=0, p_guard=.1))],
    'C03': [(300, dict(links=(3, 6), acts=(2, 4), p_delay=0, p_set=.5, p_guard=.4, p_ref_value=.6, p_attr_cond=.4,
                       w_act=6, w_tick=3)),
            (200, dict(links=(3, 6), acts=(2, 4), p_delay=.15, p_set=.2, act_tr=ALLTR, w_act=6, p_switch=.25))],
    'C04': [(300, dict(p_delay=.85, p_adur=.4, links=(2, 5), sublinks=(1, 3), p_ctx=.35, act_tr=LIFE, ms=FULL,
                       w_tick=8, steps=(10, 22))),
            (200, dict(p_delay=.9, p_set=.6, p_ref_value=.4, links=(2, 5), p_ctx=.3, ms=(250, 500, 1000, 3000),
                       w_tick=8, p_dur=.8))],
    'C05': [(330, dict(depth=4, p_ctx=.5, p_switch=.2, act_tr=ALLTR, w_act=6, p_adur=.6, subkids=(1, 4), p_port=.9,
                       links=(0, 2), sublinks=(0, 1), p_settings=.2)),
            (200, dict(depth=3, p_ctx=.45, p_refer=.25, act_tr=ALLTR, w_act=5, links=(1, 4), sublinks=(1, 2)))],
    'C06': [(330, dict(depth=3, p_ctx=.45, p_dur=.9, links=(0, 2), sublinks=(0, 2), act_tr=STARTS, w_tick=8, w_act=2,
                       ms=FULL, w_restart=.4, steps=(10, 24))),
            (200, dict(depth=3, p_ctx=.4, p_dur=.8, p_switch=.2, act_tr=ALLTR, w_tick=7, p_refer=.2))],
    'C07': [(330, dict(depth=3, p_ctx=.5, p_port=1, areas=(1, 3), act_tr=STARTS, w_act=6, links=(0, 3), sublinks=(0, 2),
                       p_dur=.8)),
            (200, dict(depth=3, p_ctx=.4, p_switch=.2, p_port=.6, act_tr=STARTS, w_act=5, p_refer=.3, areas=(1, 2)))],
    'C08': [(500, dict(p_switch=.65, p_ctx=.1, p_settings=1, p_set=.5, act_ty=(('p', 6), ('a', 4)), act_tr=STARTS,
                       w_act=6, p_refer=.1, kids=(2, 4)))],
    'C09': [(330, dict(p_switch=.6, p_ctx=.2, p_settings=.7, act_tr=ALLTR, w_act=7, p_refer=.1, links=(2, 5),
                       p_set=.15, p_dur=.7)),
            (170, dict(p_switch=.5, p_ctx=.3, depth=3, act_tr=LIFE, w_act=7, p_refer=.3, p_set=.15, areas=(1, 2)))],
    'C10': [(500, dict(areas=(1, 4), p_ctx=.15, p_switch=.08, p_dur=.5, act_tr=LIFE, w_tick=8, w_act=4, ms=FULL,
                       links=(0, 3), p_refer=.2))],
    'C11': [(500, dict(p_dur=.9, p_ctx=.3, act_tr=LIFE, w_tick=9, w_act=3, ms=(1, 250, 500, 999, 1000, 1001, 2000),
                       links=(0, 2), sublinks=(0, 1), w_restart=.4))],
    'C12': [(330, dict(p_media_prop=.9, p_ctx_prop=.7, p_set=.7, p_adur=.6, p_ref_value=.5, act_ty=(('p', 3), ('a', 7)),
                       p_animated=.25, w_act=6, p_ctx=.35, ms=FULL)),
            (200, dict(p_media_prop=.9, p_set=.7, p_adur=.5, p_ref_value=.5, act_ty=(('p', 2), ('a', 6)), p_refer=.3,
                       act_tr=ALLTR, w_trans=1, p_settings=.8))],
    'C13': [(500, dict(p_refer=.55, p_ctx=.4, depth=3, p_media_prop=.8, areas=(1, 2), links=(1, 4), sublinks=(1, 4),
                       w_act=6, kids=(3, 6), act_ty=(('p', 5), ('a', 3), ('s', 1)), p_sel=.25))],
    'C14': [(500, dict(p_sel=.75, p_key=.65, p_focus=.5, w_key=8, w_act=4, p_settings=.9, links=(2, 6), p_attr_cond=.05,
                       act_tr=LIFE))],
    'C15': [(500, dict(p_focus=.85, w_key=7, w_act=5, p_settings=.95, p_set=.4, act_ty=(('p', 6), ('a', 4)),
                       p_sel=.3, kids=(2, 5), p_media_prop=.2, act_tr=LIFE))],
    'C16': [(400, dict(w_proto=6, w_restart=1, p_dur=.9, p_settings=.6, links=(0, 3), steps=(12, 26),
                       p_focus=.3))],
    'C17': [(250, dict(w_trans=3, act_tr=ALLTR, act_ty=(('p', 4), ('a', 3), ('s', 2), ('l', 2)), p_switch=.3, p_ctx=.35,
                       p_refer=.3, p_settings=.8, w_restart=.5, p_animated=.2, p_focus=.3, p_scripts=.1, w_key=2)),
            (150, dict(links=(4, 8), sublinks=(2, 5), acts=(1, 4), p_self=.3, depth=3, p_ctx=.4, p_switch=.25,
                       p_refer=.25, p_proto=1, w_restart=.5)),
            (100, dict(w_proto=3, p_scripts=.3, p_label=.5, w_trans=2))],
    'C21': [(330, dict(p_guard=1, links=(3, 6), p_media_prop=1, p_ctx_prop=.8, p_set=.6, act_ty=(('p', 5), ('a', 5)),
                       w_act=8, p_settings=.8, p_delay=.05, p_switch=.1)),
            (170, dict(p_switch=.6, p_settings=1, p_set=.5, act_ty=(('p', 5), ('a', 5)), w_act=7))],
    'C27': [(500, dict(p_scripts=.7, p_label=.7, areas=(1, 3), p_media_prop=.8, w_post=5, w_act=5, p_focus=.5, w_key=4,
                       p_settings=.8, p_set=.4, act_ty=(('p', 5), ('a', 4)), act_tr=LIFE, p_refer=.1))],
}

# Documents as text.
LINKS = ('causalConnector connectorParam compoundCondition simpleCondition compoundAction simpleAction '
         'compoundStatement assessmentStatement attributeAssessment valueAssessment link linkParam bind bindParam')
STRUCT = ('body context media area property port region regionBase descriptor descriptorParam transition settings')
SWITCH = 'switch switchPort mapping bindRule defaultComponent rule compositeRule ruleBase'
LOAD = {
    'C18': dict(core=1300, gen=[(700, dict(p_defects=1, p_broken=4, p_imports=.3, p_noise=.4, n_defects=14))]),
    'C19': dict(scope=LINKS, gen=[(600, dict(p_defects=.3, p_conn=.9, links=(2, 5), sublinks=(1, 2), p_sel=.35, p_guard=.5,
                                             p_set=.45, p_reuse=.5, p_delay=.4, p_ref_value=.5, p_regions=.1, p_descs=.1, n_defects=6,
                                             p_attr_cond=.35)),
                                  (300, dict(p_defects=1, p_conn=.9, links=(1, 3), kids=(1, 2), depth=2, n_defects=20))]),
    'C20': dict(scope=STRUCT, gen=[(600, dict(p_defects=.2, p_regions=.9, p_descs=.95, p_trans=.6, links=(0, 1), depth=4,
                                              p_ctx=.5, subkids=(1, 3), p_conn=.1, p_port=1, areas=(0, 3), n_defects=6)),
                                   (300, dict(p_defects=1, p_regions=.8, p_descs=.9, links=(0, 1), sublinks=(0, 0),
                                              n_defects=20))]),
    'C22': dict(scope=SWITCH, gen=[(600, dict(p_defects=.3, p_switch=.75, p_ctx=.15, links=(0, 1), sublinks=(0, 0),
                                              p_regions=.05, p_descs=.05, depth=4, kids=(2, 3), areas=(0, 2),
                                              n_defects=8)),
                                   (300, dict(p_defects=1, p_switch=.75, p_ctx=.15, links=(0, 0), sublinks=(0, 0),
                                              p_imports=.5, n_defects=20))]),
    'C23': dict(scope='importBase connectorBase descriptorBase regionBase ruleBase transitionBase descriptor link media',
                gen=[(900, dict(p_defects=.6, p_imports=1, n_imports=(1, 4), p_regions=.6, p_descs=.7, p_trans=.6, n_imp=10,
                                n_defects=4, links=(1, 3), p_main=.5, p_broken=0))]),
    'C13': dict(scope='media area property port bind', core=250, gen=[
        (300, dict(p_defects=.4, p_refer=.6, p_settings=.6, p_descs=.5, depth=3, p_ctx=.45, kids=(2, 4), links=(1, 3),
                   sublinks=(0, 2), p_switch=.2, n_defects=8))]),
}

# Documents as Lua tables.
LUA = [(900, dict(depth=3, n_defects=5)), (300, dict(depth=4, n_defects=1))]

# What is drawn: weights for drawgen.DrawGen.
DRAW = {
    'C25': [(500, dict(p_gradual=.05, p_resize=.2, p_far=.35, p_whole=.4, steps=(10, 20))),
            (500, dict(p_gradual=.1, p_resize=.06, media=(3, 6), p_transp=.3, w_set=5,
                       what=(('geo', 5), ('z', 6), ('visible', 2), ('transparency', 2), ('background', 1))))],
    'C26': [(700, dict(p_gradual=.9, p_resize=.02, media=(1, 3), links=(3, 6), w_life=1.2,
                       what=(('geo', 8), ('background', 3), ('transparency', 2)))),
            (300, dict(p_gradual=.7, p_resize=.05, p_delay=.4, p_ctx=.5, w_life=4))],
    'C28': [(600, dict(p_trans=.85, media=(1, 4), p_gradual=.3, p_resize=.02, w_life=5, w_set=1.5, w_go=2, links=(1, 3),
                       p_unset=.25, p_far=.15, p_transp=.3, p_whole=.1,
                       what=(('geo', 1), ('transparency', 4), ('visible', 1), ('background', 2)))),
            (250, dict(p_trans=.7, p_gradual=.4, p_ctx=.5, w_life=4, p_image=.3))],
    'C17': [(150, dict(p_text=.6, p_image=.5, p_focus=.3, p_trans=.3, p_unset=.2, w_life=4, p_back=.03, p_again=.05,
                       p_empty=.3)),
            (50, dict(p_av=.8, w_av=6, w_life=4, media=(1, 3), p_area=.5, p_back=.05, p_again=.05))],
    'C30': [(450, dict(p_text=.85, media=(1, 3), p_gradual=.2, p_transp=.05, w_set=5, p_empty=.03,
                       what=(('geo', 4), ('text', 7), ('background', 2), ('transparency', 1)))),
            (200, dict(p_text=.7, media=(1, 4), p_gradual=.3, p_trans=.15, p_resize=.2, w_life=4, p_focus=.2,
                       what=(('geo', 4), ('text', 3), ('background', 2), ('transparency', 1), ('visible', 1))))],
    'C31': [(600, dict(p_focus=.95, media=(1, 4), p_gradual=.15, p_transp=.2, p_text=.15, p_image=.15,
                       what=(('geo', 3), ('focus', 4), ('background', 1), ('transparency', 2), ('visible', 2))))],
    'C32': [(600, dict(p_resize=.2, p_opt=.7, p_back=.12, p_again=.08, p_gradual=.2, w_life=4, p_dur=.4, media=(1, 3),
                       p_transp=.3))],
    'C33': [(450, dict(p_av=.7, w_av=6, w_life=4, media=(1, 3), p_area=.5)),
            (150, dict(p_av=.6, w_av=6, w_life=3, w_set=5, media=(1, 3), p_area=.4, p_ctx=.5, p_again=.05, p_gradual=.2,
                       what=(('av', 9), ('geo', 2), ('background', 1), ('transparency', 1), ('visible', 1))))],
    'C29': [(350, dict(p_image=.85, media=(1, 3), p_gradual=.3, w_life=3, p_transp=.3)),
            (200, dict(p_image=.6, p_gradual=.1, p_resize=.2, media=(2, 5), w_set=5, p_far=.35))],
}
