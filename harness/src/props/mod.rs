use crate::engine::Property;
mod stable;
mod xyk;
mod pure;
mod staking;
mod vest;
mod xtoken;
mod periph;
mod twap;
mod factory;
mod router;
mod incent;
mod maker;
mod access;
mod terms;
mod funds;
mod kinds;
mod pcl;
mod pclp;
mod stakes;
mod settings;
mod create;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(xyk::props());
    v.extend(stable::props());
    v.extend(pure::props());
    v.extend(staking::props());
    v.extend(vest::props());
    v.extend(xtoken::props());
    v.extend(periph::props());
    v.extend(twap::props());
    v.extend(factory::props());
    v.extend(router::props());
    v.extend(incent::props());
    v.extend(maker::props());
    v.extend(access::props());
    v.extend(terms::props());
    v.extend(funds::props());
    v.extend(kinds::props());
    v.extend(pcl::props());
    v.extend(pclp::props());
    v.extend(stakes::props());
    v.extend(settings::props());
    v.extend(create::props());
    v
}
