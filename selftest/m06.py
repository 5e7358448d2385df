PH="phmap.hpp"
MUTS=[
("moveo","C06",PH,[("            , locked_(std::move(o.locked_)) {\n            o.locked_ = false;\n            o.m_      = nullptr;\n        }\n\n        WriteLock& operator=","            , locked_(std::move(o.locked_)) {\n            o.m_      = nullptr;\n        }\n\n        WriteLock& operator=")]),
("trylock","C06",PH,[("            locked_ = m_->try_lock();\n            return locked_;","            locked_ |= m_->try_lock();\n            return true;")]),
("tryagain","C06",PH,[("            if (locked_)\n                return true;\n            locked_ = m_->try_lock();","            locked_ = m_->try_lock();")]),
("rw_swap","C06",PH,[("            std::swap(locked_shared_, o.locked_shared_);\n","")]),
("rw_dtor","C06",PH,[("            if (locked_shared_)\n                m_->unlock_shared();\n            else if (locked_)\n                m_->unlock();","            if (locked_)\n                m_->unlock();\n            else if (locked_shared_)\n                m_->unlock_shared();"  )]),
("rw_dtor2","C06",PH,[("            if (locked_shared_)\n                m_->unlock_shared();\n            else if (locked_)\n                m_->unlock();","            if (locked_shared_ || locked_)\n                m_->unlock_shared();"  )]),
("sw_false","C06",PH,[("            unlock_shared();\n            lock();\n            return true;","            m_->unlock_shared();\n            m_->lock();\n            locked_ = true;\n            return true;")]),
("lock_flagfirst","C06",PH,[("        void lock() {\n            if (!locked_) {\n                m_->lock_shared();\n                locked_ = true;","        void lock() {\n            if (!locked_) {\n                locked_ = true;\n                m_->lock_shared();")]),
("absl_try","C06",PH,[("ABSL_SHARED_TRYLOCK_FUNCTION(true) { return this->ReaderTryLock(); }","ABSL_SHARED_TRYLOCK_FUNCTION(true) { return this->TryLock(); }")]),
("wl_unlock","C06",PH,[("        ~WriteLocks() {\n            _m1.unlock();\n            _m2.unlock();","        ~WriteLocks() {\n            _m1.unlock();\n            if (&_m1 < &_m2) _m2.unlock();")]),
("rw_ctor","C06",PH,[("            , locked_(false)\n            , locked_shared_(true) {\n            m_->lock_shared();\n        }","            , locked_(false)\n            , locked_shared_(false) {\n            m_->lock_shared();\n        }")]),
]
