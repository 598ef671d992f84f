// Stand-in for boost::shared_mutex: same contract, blocking goes through the harness scheduler (env.h).
#ifndef BOOST_THREAD_SHARED_MUTEX_HPP
#define BOOST_THREAD_SHARED_MUTEX_HPP
#include <boost/thread/lock_types.hpp>
extern "C" { void env_sm_lock(void*); void env_sm_unlock(void*); void env_sm_lock_shared(void*); void env_sm_unlock_shared(void*); bool env_sm_try_lock(void*); bool env_sm_try_lock_shared(void*); }
namespace boost {
class shared_mutex { public: int w=0, r=0; // w: writer holds, r: readers holding
  shared_mutex(){} shared_mutex(shared_mutex const&)=delete; shared_mutex& operator=(shared_mutex const&)=delete;
  void lock(){ env_sm_lock(this); } void unlock(){ env_sm_unlock(this); } bool try_lock(){ return env_sm_try_lock(this); }
  void lock_shared(){ env_sm_lock_shared(this); } void unlock_shared(){ env_sm_unlock_shared(this); } bool try_lock_shared(){ return env_sm_try_lock_shared(this); }
  void lock_upgrade(){ env_sm_lock(this); } void unlock_upgrade(){ env_sm_unlock(this); } void unlock_upgrade_and_lock(){} void unlock_and_lock_upgrade(){} void unlock_and_lock_shared(){ env_sm_unlock(this); env_sm_lock_shared(this); } };
}
#endif
