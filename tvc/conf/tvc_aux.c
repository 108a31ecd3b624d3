/* only gives the verifier the layout (debug information) of engine structures */
#include "php.h"
#include "zend_interfaces.h"
zend_executor_globals tvc_eg;
zend_fcall_info tvc_fci;
zend_fcall_info_cache tvc_fcc;
zend_class_entry tvc_ce;
zend_object_iterator tvc_it;
HashTable tvc_ht;
zend_object tvc_obj;
zend_execute_data tvc_ex;

/* ext/spl/spl_iterators.c of PHP 8.3, verbatim: the engine's loop over a Traversable. Assumed, like every engine contract. */
#include "ext/spl/spl_iterators.h"
PHPAPI zend_result spl_iterator_apply(zval *obj, spl_iterator_apply_func_t apply_func, void *puser)
{
	zend_object_iterator   *iter;
	zend_class_entry       *ce = Z_OBJCE_P(obj);

	iter = ce->get_iterator(ce, obj, 0);
	if (EG(exception)) {
		goto done;
	}

	iter->index = 0;
	if (iter->funcs->rewind) {
		iter->funcs->rewind(iter);
		if (EG(exception)) {
			goto done;
		}
	}

	while (iter->funcs->valid(iter) == SUCCESS) {
		if (EG(exception)) {
			goto done;
		}
		if (apply_func(iter, puser) == ZEND_HASH_APPLY_STOP || EG(exception)) {
			goto done;
		}
		iter->index++;
		iter->funcs->move_forward(iter);
		if (EG(exception)) {
			goto done;
		}
	}

done:
	if (iter) {
		zend_iterator_dtor(iter);
	}
	return EG(exception) ? FAILURE : SUCCESS;
}

/* Zend/zend_API.c of PHP 8.3 */
ZEND_API const zend_fcall_info empty_fcall_info = {0};
ZEND_API const zend_fcall_info_cache empty_fcall_info_cache = {0};
