"""Which rules decide which property."""
import chk_script as S
import chk_match as X
import chk_struct as C
import chk_tree as T
import chk_api as A
import chk_safe as F
import chk_complete as K
import chk_server as V
import chk_dom as O
import chk_hot as H
import chk_apply as Y
import chk_plan as Z
import chk_gain as G
import chk_value as U
import chk_domapi as W
import chk_sink as Q
import chk_borrow as B
import chk_hpanic as N
import chk_wasm as M

CONTRACT = ["DiffTree implementations are deterministic and consistent (children/parent/descendants/position/iter describe one finite tree)",
            "std and indextree functions behave as documented; only their models are used",
            "rustc's MIR of the current source (nightly front end, all cfg combinations listed) is what ships"]
IDEN = ["equal hash means structurally identical subtrees (the DiffTree contract)"]
NAN = ["Properties::similarity and similarity_threshold are never NaN"]
ARENA = ["indextree behaves as documented; its functions are models",
         "rustc's MIR of the current source (nightly front end, all cfg combinations listed) is what ships"]
STUBS = ["the dependencies of hotmeal that are not on this machine have the signatures in stubs/ and behave as their models say",
         "std functions behave as documented; only their models are used",
         "rustc's MIR of the current source (nightly front end, all cfg combinations listed) is what ships"]

CHECKS = {
    "C01": {"run": [X.m_one_to_one], "floor": 2, "assumptions": CONTRACT},
    "C02": {"run": [C.m_container], "floor": 2, "assumptions": CONTRACT + ["NodeId to index conversion is injective within one tree"]},
    "C03": {"run": [X.m_kind], "floor": 2, "assumptions": CONTRACT + IDEN},
    "C04": {"run": [X.m_justified], "floor": 2, "assumptions": CONTRACT + IDEN + NAN},
    "C05": {"run": [X.m_ancestry], "floor": 2, "assumptions": CONTRACT + IDEN},
    "C06": {"run": [X.m_opaque], "floor": 2, "assumptions": CONTRACT + IDEN},
    "C07": {"run": [X.m_min_height], "floor": 2, "assumptions": CONTRACT + IDEN},
    "C08": {"run": [X.m_determinism, S.e_determinism, B.x_address], "floor": 2, "assumptions": CONTRACT},
    "C09": {"run": [K.m_top_down], "floor": 2, "assumptions": CONTRACT + IDEN},
    "C10": {"run": [K.m_bottom_up], "floor": 2, "assumptions": CONTRACT + NAN + ["iter() lists parents before their children (C20)"]},
    "C11": {"run": [K.m_dice], "floor": 2, "assumptions": CONTRACT + IDEN + NAN},
    "C12": {"run": [S.e_insert], "floor": 2, "assumptions": CONTRACT},
    "C13": {"run": [S.e_delete], "floor": 2, "assumptions": CONTRACT},
    "C14": {"run": [S.e_move], "floor": 2, "assumptions": CONTRACT},
    "C15": {"run": [S.e_settext], "floor": 2, "assumptions": CONTRACT},
    "C16": {"run": [S.e_update], "floor": 2, "assumptions": CONTRACT},
    "C17": {"run": [S.e_order], "floor": 2, "assumptions": CONTRACT},
    "C19": {"run": [T.t_build], "floor": 5, "assumptions": ARENA},
    "C20": {"run": [T.t_access], "floor": 10, "assumptions": ARENA},
    "C21": {"run": [T.t_position], "floor": 5, "assumptions": ARENA},
    "C22": {"run": [T.t_height], "floor": 2, "assumptions": ARENA},
    "C23": {"run": [T.t_post_order], "floor": 2, "assumptions": ARENA},
    "C24": {"run": [A.t_compose], "floor": 4, "assumptions": CONTRACT},
    "C25": {"run": [A.t_values], "floor": 40, "assumptions": CONTRACT},
    "C26": {"run": [F.x_neutral], "floor": 10, "assumptions": CONTRACT},
    "C27": {"run": [F.x_terminate], "floor": 30, "assumptions": CONTRACT},
    "C28": {"run": [F.x_panic, B.x_borrow], "floor": 40, "assumptions": CONTRACT},
    "C18": {"run": [S.e_opaque], "floor": 2, "assumptions": CONTRACT},
    "C29": {"run": [V.v_cache], "floor": 20, "crate": "hotmeal-server", "assumptions": STUBS},
    "C30": {"run": [V.v_events], "floor": 20, "crate": "hotmeal-server", "assumptions": STUBS},
    "C31": {"run": [V.v_inject], "floor": 4, "crate": "hotmeal-server", "assumptions": STUBS},
    "C32": {"run": [O.v_serialize], "floor": 60, "crate": "hotmeal", "assumptions": STUBS},
    "C33": {"run": [H.v_mirror], "floor": 5, "crate": "hotmeal", "assumptions": STUBS},
    "C34": {"run": [H.v_diffable], "floor": 100, "crate": "hotmeal", "assumptions": STUBS},
    "C35": {"run": [H.v_props], "floor": 20, "crate": "hotmeal", "assumptions": STUBS},
    "C36": {"run": [Y.v_patch], "floor": 70, "crate": "hotmeal", "assumptions": STUBS},
    "C37": {"run": [Y.v_insert], "floor": 100, "crate": "hotmeal", "assumptions": STUBS},
    "C38": {"run": [Z.v_paths, Z.v_plan], "floor": 1000, "crate": "hotmeal", "assumptions": STUBS},
    "C39": {"run": [G.v_content], "floor": 15, "crate": "hotmeal", "assumptions": STUBS},
    "C41": {"run": [U.v_owned], "floor": 20, "crate": "hotmeal", "assumptions": STUBS},
    "C42": {"run": [U.v_stem], "floor": 50, "crate": "hotmeal", "assumptions": STUBS},
    "C43": {"run": [W.v_look, W.v_change], "floor": 50, "crate": "hotmeal", "assumptions": STUBS},
    "C44": {"run": [Q.v_sink], "floor": 100, "crate": "hotmeal", "assumptions": STUBS},
    "C45": {"run": [N.v_panic, B.x_borrow], "floor": 300, "crate": "hotmeal", "assumptions": STUBS + [
        "html5ever orders a tree: it never puts a node under itself", "text that lies inside the input by its address is a whole part of it"]},
    "C46": {"run": [M.v_client], "floor": 1000, "crate": "hotmeal-wasm", "assumptions": STUBS + [
        "the browser's nodes behave as the DOM standard says; a call that may fail changes nothing when it does"]},
    "C48": {"run": [M.v_panic, B.x_borrow], "floor": 100, "crate": "hotmeal-wasm", "assumptions": STUBS + ["there is a child for every number below the count"]},
    "C47": {"run": [M.v_slots], "floor": 8, "crate": "hotmeal-wasm", "assumptions": STUBS},
    "C40": {"run": [G.v_diff], "floor": 300, "crate": "hotmeal", "assumptions": STUBS},
}
