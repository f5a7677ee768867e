//! Handlers made with the route macros (m_*) next to the same handlers written out by hand (h_*).
//! The analysis compares their abstract behaviour; none of this is ever run.
use octane::prelude::*;
use octane::request::MatchedRequest;
use octane::responder::Response;
use octane::router::Closure;

pub struct Env {
    pub a: u32,
    pub b: String,
}
// stand-ins for whatever a user may write; opaque to the analysis
pub fn flow(_: &MatchedRequest, _: &mut Response) -> Flow {
    unimplemented!()
}
pub fn unit(_: &MatchedRequest, _: &mut Response) {
    unimplemented!()
}
pub fn value(_: &MatchedRequest, _: &mut Response) -> u64 {
    unimplemented!()
}
pub fn test(_: &MatchedRequest) -> bool {
    unimplemented!()
}
pub fn note(_: u32, _: &str) {
    unimplemented!()
}

macro_rules! twins {
    ($m:ident, $h:ident, $env:ident, $mac:expr, $hand:expr) => {
        pub fn $m(req: &MatchedRequest, res: &mut Response, $env: Env) -> Flow {
            let f: Closure = $mac;
            f(req, res)
        }
        pub fn $h(req: &MatchedRequest, res: &mut Response, $env: Env) -> Flow {
            let f: Closure = $hand;
            f(req, res)
        }
    };
}

// route!: the code's own value decides
twins!(m_flow, h_flow, env, route!(|req, res| flow(req, res)), Box::new(move |req, res| flow(req, res)));
twins!(m_const_stop, h_const_stop, env, route!(|req, res| Flow::Stop), Box::new(move |_req, _res| Flow::Stop));
twins!(m_const_next, h_const_next, env, route!(|req, res| Flow::Next), Box::new(move |_req, _res| Flow::Next));
twins!(m_names, h_names, env,
    route!(|request, answer| { unit(request, answer); flow(request, answer) }),
    Box::new(move |request, answer| { unit(request, answer); flow(request, answer) }));
twins!(m_branch, h_branch, env,
    route!(|req, res| { if test(req) { unit(req, res); return Flow::Stop; } value(req, res); flow(req, res) }),
    Box::new(move |req, res| { if test(req) { unit(req, res); return Flow::Stop; } value(req, res); flow(req, res) }));
twins!(m_env, h_env, env,
    route!(|req, res| { note(env.a, &env.b); unit(req, res); note(env.a, &env.b); flow(req, res) }),
    Box::new(move |req, res| { note(env.a, &env.b); unit(req, res); note(env.a, &env.b); flow(req, res) }));
twins!(m_same, h_same, env,
    route!(|flow, next| { let (r, s) = (flow, next); unit(r, s); Flow::Next }),
    Box::new(move |flow, next| { let (r, s) = (flow, next); unit(r, s); Flow::Next }));

// route_next!: later handlers run after the code
twins!(n_unit, g_unit, env, route_next!(|req, res| unit(req, res)), Box::new(move |req, res| { unit(req, res); Flow::Next }));
twins!(n_value, g_value, env, route_next!(|req, res| value(req, res)), Box::new(move |req, res| { value(req, res); Flow::Next }));
twins!(n_flow, g_flow, env, route_next!(|req, res| flow(req, res)), Box::new(move |req, res| { flow(req, res); Flow::Next }));
twins!(n_block, g_block, env,
    route_next!(|request, answer| { unit(request, answer); if test(request) { note(env.a, &env.b); } value(request, answer); }),
    Box::new(move |request, answer| { unit(request, answer); if test(request) { note(env.a, &env.b); } value(request, answer); Flow::Next }));
twins!(n_return, g_return, env,
    route_next!(|req, res| { if test(req) { return Flow::Stop; } unit(req, res); }),
    Box::new(move |req, res| { if test(req) { return Flow::Stop; } unit(req, res); Flow::Next }));

// route_stop!: no later handler runs after the code
twins!(s_unit, t_unit, env, route_stop!(|req, res| unit(req, res)), Box::new(move |req, res| { unit(req, res); Flow::Stop }));
twins!(s_value, t_value, env, route_stop!(|req, res| value(req, res)), Box::new(move |req, res| { value(req, res); Flow::Stop }));
twins!(s_flow, t_flow, env, route_stop!(|req, res| flow(req, res)), Box::new(move |req, res| { flow(req, res); Flow::Stop }));
twins!(s_block, t_block, env,
    route_stop!(|request, answer| { unit(request, answer); if test(request) { note(env.a, &env.b); } value(request, answer); }),
    Box::new(move |request, answer| { unit(request, answer); if test(request) { note(env.a, &env.b); } value(request, answer); Flow::Stop }));
twins!(s_return, t_return, env,
    route_stop!(|req, res| { if test(req) { return Flow::Next; } unit(req, res); }),
    Box::new(move |req, res| { if test(req) { return Flow::Next; } unit(req, res); Flow::Stop }));

// handlers own what they capture: they can be returned, and registered, from where their captures lived
pub fn owned(env: Env) -> Closure {
    route!(|req, res| { note(env.a, &env.b); Flow::Next })
}
pub fn owned_next(env: Env) -> Closure {
    route_next!(|req, res| note(env.a, &env.b))
}
pub fn owned_stop(env: Env) -> Closure {
    route_stop!(|req, res| note(env.a, &env.b))
}
pub fn registered(app: &mut Octane, router: &mut Router) {
    let _ = app.get("/", route!(|req, res| flow(req, res)));
    let _ = app.add(route_next!(|req, res| unit(req, res)));
    let _ = router.post("/", route_stop!(|req, res| unit(req, res)));
}
